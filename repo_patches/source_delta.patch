From 6139c9e81e576342ef15b0cb516ce8f546086ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 001/103] fix: genus() of surfaces with boundary counted the
 boundary loops twice

---
 src/surface/manifold_surface_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a9cd376..760fe49 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -519,9 +519,9 @@ int ManifoldSurfaceMesh::eulerCharacteristic() const {
 }
 
 int ManifoldSurfaceMesh::genus() const {
+  // note that eulerCharacteristic() already counts each boundary loop as a (capping) face
   int chi = eulerCharacteristic();
-  int boundaryLoops = nBoundaryLoops();
-  return (2 - boundaryLoops - chi) / 2;
+  return (2 - chi) / 2;
 }
 
 
-- 
2.43.0


From d3252cd14b220a69265ff45a59dc48e10b04abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 002/103] fix: insertVertexAlongEdge() corrupted the mesh at
 edges dangling from a degree-1 vertex

---
 src/surface/manifold_surface_mesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 760fe49..5858884 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -580,8 +580,12 @@ Halfedge ManifoldSurfaceMesh::insertVertexAlongEdge(Edge e) {
   heFaceArr[heBNew.getIndex()] = fB.getIndex();
 
   // Fix pointers for old halfedges
+  if (heAPrev == heBCenter) { // e dangles from a degree-1 vertex at the bottom
+    heNextArr[heBNew.getIndex()] = heANew.getIndex();
+  } else {
+    heNextArr[heAPrev.getIndex()] = heANew.getIndex();
+  }
   heNextArr[heBCenter.getIndex()] = heBNew.getIndex();
-  heNextArr[heAPrev.getIndex()] = heANew.getIndex();
   heVertexArr[heACenter.getIndex()] = newV.getIndex();
 
   // Only set this if we broke it, to preseve boundary convention
-- 
2.43.0


From 07c28c211201bab630e13b56f1fdb5941586af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 003/103] fix: switchHalfedgeSides() broke the mesh when one
 halfedge of the edge follows the other or itself

---
 src/surface/manifold_surface_mesh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 5858884..ba99833 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -848,10 +848,12 @@ Halfedge ManifoldSurfaceMesh::switchHalfedgeSides(Edge e) {
   Vertex vB = heT.vertex();
 
   // Set references
-  heNextArr[he.getIndex()] = heTN.getIndex();
+  // (the two halfedges trade places, which also applies where they follow one another or themselves)
+  auto swapped = [&](Halfedge h) { return h == he ? heT : (h == heT ? he : h); };
   heNextArr[heTP.getIndex()] = he.getIndex();
-  heNextArr[heT.getIndex()] = heN.getIndex();
   heNextArr[heP.getIndex()] = heT.getIndex();
+  heNextArr[he.getIndex()] = swapped(heTN).getIndex();
+  heNextArr[heT.getIndex()] = swapped(heN).getIndex();
 
   heFaceArr[he.getIndex()] = fB.getIndex();
   heFaceArr[heT.getIndex()] = fA.getIndex();
-- 
2.43.0


From 3b3da38a5d7a8171318ac042b5b1c742b84b9db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 004/103] fix: removeEdge() read past the end of an empty ring
 when both faces have degree one

---
 src/surface/manifold_surface_mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index ba99833..51bd0f9 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1294,6 +1294,11 @@ Face ManifoldSurfaceMesh::removeEdge(Edge e) {
     }
   }
 
+  // Nothing would be left of the face
+  if (ringHalfedges.empty()) {
+    return Face();
+  }
+
   // If both faces are the same, we cannot remove the edge. This should have been caught above
   if (toRemove[0].face() == toRemove[1].face()) {
     return Face();
-- 
2.43.0


From 1dbbf9c2e97bf9d497453c60d1dc25d569afed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 005/103] fix: separateEdge() assumed triangles, mishandled
 self-edges and miscounted interior halfedges

---
 src/surface/manifold_surface_mesh.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 51bd0f9..baf81d3 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -690,6 +690,10 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
   Vertex vB = he.twin().vertex();
   bool vBIsBoundary = vB.isBoundary();
 
+  if (vA == vB) {
+    throw std::runtime_error("not implemented: separateEdge() on a self-edge");
+  }
+
   // Swap if needed to simplify case 2, so he.vertex() is always on boundary if any vertex is
   bool swapAB = false; // notice: only possibly swap if case 2 below
   if (vBIsBoundary && !vAIsBoundary) {
@@ -740,6 +744,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     heFaceArr[heT.getIndex()] = blN.getIndex();
     heFaceArr[heN1.getIndex()] = fB.getIndex();
     heFaceArr[heN2.getIndex()] = blN.getIndex();
+    nInteriorHalfedgesCount--; // heT is now exterior
 
     fHalfedgeArr[fB.getIndex()] = heN1.getIndex();
     fHalfedgeArr[blN.getIndex()] = heT.getIndex();
@@ -779,7 +784,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     Halfedge heCurr = he;
     do { // set new outgoing halfedge from vN
       heVertexArr[heCurr.getIndex()] = vN.getIndex();
-      heCurr = heCurr.next().next().twin();
+      heCurr = heCurr.prevOrbitFace().twin();
     } while (heCurr != heBN);
     heVertexArr[heCurr.getIndex()] = vN.getIndex();
 
@@ -787,6 +792,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     // std::cout << heFaceArr[heT.getIndex()] << std::endl;
     heFaceArr[heN1.getIndex()] = fB.getIndex();
     heFaceArr[heN2.getIndex()] = bl.asFace().getIndex();
+    nInteriorHalfedgesCount--; // heT is now exterior
 
     fHalfedgeArr[fB.getIndex()] = heN1.getIndex();
 
-- 
2.43.0


From f04e1d2207b003c2bb5af35ec70287a234fc3066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 006/103] fix: removeFaceAlongBoundary() created nonmanifold
 meshes from polygons and miscounted interior halfedges

---
 src/surface/manifold_surface_mesh.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index baf81d3..ab0d19a 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1373,14 +1373,21 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     Face bLoop = heT.face();
 
 
-    // Opposite vertex must not be a bounary vertex or this creates a nonmanifold mesh (imagine hourglass)
-    if (heBPrev.vertex().isBoundary()) {
+    // Opposite vertices must not be boundary vertices (nor repeat) or this creates a nonmanifold mesh (imagine hourglass)
+    if (heBNext == heB) {
       return false;
     }
+    std::unordered_set<Vertex> oppositeVertices;
+    for (Halfedge he = heBNext.next(); he != heB; he = he.next()) {
+      if (he.vertex().isBoundary() || !oppositeVertices.insert(he.vertex()).second) {
+        return false;
+      }
+    }
 
     // Update refs
     for (Halfedge he : f.adjacentHalfedges()) {
       heFaceArr[he.getIndex()] = bLoop.getIndex();
+      nInteriorHalfedgesCount--;
     }
 
     // Next refs
@@ -1388,8 +1395,9 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     heNextArr[heTPrev.getIndex()] = heBNext.getIndex();
 
     // Vertex halfedges
-    vHalfedgeArr[heTNext.vertex().getIndex()] = heBPrev.twin().getIndex();
-    ensureVertexHasBoundaryHalfedge(heBPrev.vertex());
+    for (Halfedge he = heBNext; he != heTNext; he = he.next()) {
+      vHalfedgeArr[he.next().vertex().getIndex()] = he.twin().getIndex();
+    }
 
     fHalfedgeArr[bLoop.getIndex()] = heTNext.getIndex();
 
-- 
2.43.0


From 05cdf83ea95f9ea3aa45a7c541490a7ca196a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 007/103] fix: collapseEdgeTriangular() collapsed a different
 edge when the tail is the corner of a boundary ear

---
 src/surface/manifold_surface_mesh.cpp | 46 ++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index ab0d19a..9a829b9 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1066,10 +1066,6 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
   if (e.isBoundary()) {
     // Gather some values
     Halfedge heA0 = e.halfedge();
-    if (heA0.vertex().degree() == 2) {
-      heA0 = heA0.next().next();
-      e = heA0.edge();
-    }
 
     // check if edge is part of a 'pinch' triangle
     if (heA0.twin().next().next().next() == heA0.twin()) {
@@ -1088,6 +1084,48 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
 
     Halfedge heA1 = heA0.next();
     Halfedge heA2 = heA1.next();
+
+    // If the tail is the corner of an ear, it is the tip which must be merged in to it
+    if (heA0.vertex().degree() == 2) {
+      Halfedge heB0 = heA0.twin();
+      Halfedge heB0next = heB0.next();
+      Halfedge heB0prev = heB0.prevOrbitVertex();
+      Halfedge heD0 = heA1.twin();
+      Halfedge heD1 = heD0.next();
+      Halfedge heDprev = heD0.prevOrbitFace();
+      Face fA = heA0.face();
+      Face fB = heB0.face(); // boundary loop
+      Face fD = heD0.face();
+      Vertex vA = heA0.vertex();
+      Vertex vB = heA1.vertex();
+      Vertex vC = heA2.vertex();
+      Halfedge vBHalfedge = vB.halfedge();
+
+      std::vector<Halfedge> toReassignVertex;
+      for (Halfedge he : vB.outgoingHalfedges()) {
+        toReassignVertex.push_back(he);
+      }
+      for (Halfedge he : toReassignVertex) {
+        heVertexArr[he.getIndex()] = vA.getIndex();
+      }
+      heNextArr[heDprev.getIndex()] = heA2.getIndex();
+      heNextArr[heA2.getIndex()] = heD1.getIndex();
+      heNextArr[heB0prev.getIndex()] = heB0next.getIndex();
+      heFaceArr[heA2.getIndex()] = fD.getIndex();
+      vHalfedgeArr[vA.getIndex()] = vBHalfedge.getIndex();
+      vHalfedgeArr[vC.getIndex()] = heA2.getIndex();
+      fHalfedgeArr[fD.getIndex()] = heA2.getIndex();
+      fHalfedgeArr[fB.getIndex()] = heB0next.getIndex();
+
+      deleteEdgeBundle(e);
+      deleteEdgeBundle(heA1.edge());
+      deleteElement(vB);
+      deleteElement(fA);
+
+      modificationTick++;
+      return vA;
+    }
+
     Halfedge heC2 = heA2.twin();
     Halfedge heC0 = heC2.next();
     Halfedge heC1 = heC0.next();
-- 
2.43.0


From d853a4cb4e12a19b9b87608f989874a59ab805c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 008/103] fix: flip() created self-edges although asked to
 prevent them

---
 src/surface/surface_mesh.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 4d0bdeb..03a4f59 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -878,7 +878,10 @@ bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
   Vertex vd = hb3.vertex();
 
   if (preventSelfEdges) {
-    // If enabled, make sure it is not a duplicate
+    // If enabled, make sure it does not become a self-edge
+    if (vc == vd) return false;
+
+    // ...and that it is not a duplicate
     for (Vertex v : vc.adjacentVertices()) {
       if (v == vd) return false;
     }
-- 
2.43.0


From 4af7228408020f84a99abd1acc65d80df74d5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 009/103] fix: isTriangle() and flip() took degree-1 faces for
 triangles

---
 include/geometrycentral/surface/halfedge_element_types.ipp | 2 +-
 src/surface/surface_mesh.cpp                               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/halfedge_element_types.ipp b/include/geometrycentral/surface/halfedge_element_types.ipp
index cea15c1..f2d2b9d 100644
--- a/include/geometrycentral/surface/halfedge_element_types.ipp
+++ b/include/geometrycentral/surface/halfedge_element_types.ipp
@@ -405,7 +405,7 @@ inline bool Face::isDead() const    { return mesh->faceIsDead(ind); }
 // Properties
 inline bool Face::isTriangle() const {
   Halfedge he = halfedge();
-  return he == he.next().next().next();
+  return he != he.next() && he == he.next().next().next(); // (a degree-1 face also closes after three steps)
 }
 inline size_t Face::degree() const {
   size_t k = 0;
diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 03a4f59..3baec36 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -852,13 +852,13 @@ bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
   Halfedge ha1 = eFlip.halfedge();
   Halfedge ha2 = ha1.next();
   Halfedge ha3 = ha2.next();
-  if (ha3.next() != ha1) return false; // not a triangle
+  if (ha3.next() != ha1 || ha2 == ha1) return false; // not a triangle
 
   // Get halfedges of second face
   Halfedge hb1 = ha1.sibling();
   Halfedge hb2 = hb1.next();
   Halfedge hb3 = hb2.next();
-  if (hb3.next() != hb1) return false; // not a triangle
+  if (hb3.next() != hb1 || hb2 == hb1) return false; // not a triangle
 
   if (hb1.sibling() != ha1) return false;     // not manifold
   if (ha2 == hb1 || hb2 == ha1) return false; // incident on degree 1 vertex
-- 
2.43.0


From c45e7de62ecccb14f27cdd55d058f7dbf85aa4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 010/103] fix: splitEdgeTriangular() left a half-done split
 when both sides of the edge are the same triangle

---
 src/surface/manifold_surface_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 9a829b9..4fbfa87 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -604,6 +604,8 @@ Halfedge ManifoldSurfaceMesh::splitEdgeTriangular(Edge e) {
   GC_SAFETY_ASSERT(e.halfedge().face().isTriangle(), "splitEdgeTriangular requires triangular faces");
   GC_SAFETY_ASSERT(e.isBoundary() || e.halfedge().twin().face().isTriangle(),
                    "splitEdgeTriangular requires triangular faces");
+  GC_SAFETY_ASSERT(e.isBoundary() || e.halfedge().face() != e.halfedge().twin().face(),
+                   "splitEdgeTriangular requires the two sides of the edge to be distinct faces");
 
   // First operation: insert a new vertex along the edge
   Halfedge he = insertVertexAlongEdge(e);
-- 
2.43.0


From 060775f046d7dca06bfb3c39588a355810fe722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 011/103] fix: compress() permuted boundary loop data in
 reverse order

---
 src/surface/surface_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 3baec36..a6f78dd 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1890,6 +1890,8 @@ void SurfaceMesh::compressFaces() {
   nBoundaryLoopsFillCount = nBoundaryLoopsCount;
 
   // Invoke callbacks
+  // (boundary loops are stored back-to-front, so the list gathered above is in decreasing order of boundary loop index)
+  std::reverse(newBLIndMap.begin(), newBLIndMap.end());
   newIndMap.resize(nFacesCount); // truncate all boundary loop entries, so this array now just holds values for faces
   for (auto& f : facePermuteCallbackList) {
     f(newIndMap);
-- 
2.43.0


From 6a1868bd490da6d748461d129ef1bd71c76449a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 012/103] fix: compressing a mesh after moving from a container
 read out of bounds through the moved-from container

---
 include/geometrycentral/utilities/mesh_data.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 8b60ebd..0d13e1a 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -48,6 +48,7 @@ template <typename E, typename T>
 MeshData<E, T>::MeshData(MeshData<E, T>&& other) noexcept
     : mesh(other.mesh), defaultValue(other.defaultValue), data(std::move(other.data)) {
   registerWithMesh();
+  other.clear(); // the moved-from container has no data left for the mesh's callbacks to work on
 }
 
 
@@ -64,11 +65,13 @@ MeshData<E, T>& MeshData<E, T>::operator=(const MeshData<E, T>& other) {
 
 template <typename E, typename T>
 MeshData<E, T>& MeshData<E, T>::operator=(MeshData<E, T>&& other) noexcept {
+  if (this == &other) return *this;
   deregisterWithMesh();
   mesh = other.mesh;
   defaultValue = other.defaultValue;
   data = std::move(other.data);
   registerWithMesh();
+  other.clear(); // the moved-from container has no data left for the mesh's callbacks to work on
 
   return *this;
 }
-- 
2.43.0


From d2b32a43524d7e7674a7c175e1e2f7322bf2e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 013/103] fix: reinterpretTo() left containers with the storage
 size of the wrong mesh

---
 include/geometrycentral/utilities/mesh_data.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 0d13e1a..718c591 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -259,7 +259,9 @@ inline MeshData<E, T> MeshData<E, T>::reinterpretTo(ParentMeshT& targetMesh) con
   GC_SAFETY_ASSERT(nElements<E>(mesh) == nElements<E>(&targetMesh),
                    "meshes must have same number of elements to reinterpret");
   MeshData<E, T> newData(targetMesh, defaultValue);
-  newData.data = data;
+  // the two meshes may have allocated different amounts of unused storage, newData must keep the size of targetMesh's
+  Eigen::Index nShared = std::min(data.size(), newData.data.size());
+  newData.data.head(nShared) = data.head(nShared);
   return newData;
 }
 
-- 
2.43.0


From 006fd0f41a4b28e20db660e66671c110b9d23eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 014/103] fix: setDefault() on a container without elements
 left the old default in the first slot

---
 include/geometrycentral/utilities/mesh_data.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 718c591..6343c9a 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -276,11 +276,11 @@ inline void MeshData<E, T>::setDefault(T newDefault) {
   // TODO this is pretty sloppy, and probably indicates a flaw in the design of this class... The default should
   // probably just be const instead.
   // TODO could avoid this (and some things in fill()) with an element_fill<E>() template
-  size_t maxInd = 0;
+  size_t firstUnused = 0;
   for (E e : iterateElements<E>(mesh)) {
-    maxInd = std::max(maxInd, e.getIndex());
+    firstUnused = std::max(firstUnused, e.getIndex() + 1);
   }
-  for (size_t i = maxInd + 1; i < (size_t)data.size(); i++) {
+  for (size_t i = firstUnused; i < (size_t)data.size(); i++) {
     data[i] = defaultValue;
   }
 }
-- 
2.43.0


From 8d3392b33677fba773969b7a0d12d069e414b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 015/103] fix: arithmetic on mesh data also ran on unused slots
 (integer division trap, wrong values for new elements)

---
 include/geometrycentral/utilities/mesh_data.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.h b/include/geometrycentral/utilities/mesh_data.h
index 70a7555..b1ae2bb 100644
--- a/include/geometrycentral/utilities/mesh_data.h
+++ b/include/geometrycentral/utilities/mesh_data.h
@@ -128,13 +128,14 @@ void checkMeshValid(const MeshData<E, T>& val);
 // the operator in C++. The macros below define all the necessary functions for each unary/binary operator. At the
 // bottom we instantiate all the common arithmetic and logical operators. We don't bother separating declaration from
 // definition, since it's not human-readable anyway.
+// Only the slots of actual elements are touched: unused slots of the buffer hold the default value for future elements.
 
 #define GC_INTERNAL_MESHDATA_UNARY(OP)                                                                                 \
   template <typename E, typename T>                                                                                    \
   MeshData<E, decltype(OP std::declval<T>())> operator OP(const MeshData<E, T>& lhs) {                                 \
     checkMeshValid(lhs);                                                                                               \
     MeshData<E, decltype(OP std::declval<T>())> result(*lhs.getMesh());                                                \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = OP lhs.raw()[i];                             \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = OP lhs[e];                                              \
     return result;                                                                                                     \
   }
 
@@ -145,21 +146,21 @@ void checkMeshValid(const MeshData<E, T>& val);
                                                                             const MeshData<E, U>& rhs) {               \
     checkMeshCompatible(lhs, rhs);                                                                                     \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*lhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = lhs.raw()[i] OP rhs.raw()[i];                \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = lhs[e] OP rhs[e];                                       \
     return result;                                                                                                     \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> operator OP(const MeshData<E, T>& lhs, const U& rhs) { \
     checkMeshValid(lhs);                                                                                               \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*lhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = lhs.raw()[i] OP rhs;                         \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = lhs[e] OP rhs;                                          \
     return result;                                                                                                     \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> operator OP(const T& lhs, const MeshData<E, U>& rhs) { \
     checkMeshValid(rhs);                                                                                               \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*rhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < rhs.raw().rows(); i++) result.raw()[i] = lhs OP rhs.raw()[i];                         \
+    for (E e : iterateElements<E>(rhs.getMesh())) result[e] = lhs OP rhs[e];                                          \
     return result;                                                                                                     \
   }
 
@@ -170,13 +171,13 @@ void checkMeshValid(const MeshData<E, T>& val);
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())>& operator OP##=(MeshData<E, T>& lhs,                   \
                                                                                 const MeshData<E, U>& rhs) {           \
     checkMeshCompatible(lhs, rhs);                                                                                     \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) lhs.raw()[i] OP## = rhs.raw()[i];                              \
+    for (E e : iterateElements<E>(lhs.getMesh())) lhs[e] OP## = rhs[e];                                               \
     return lhs;                                                                                                        \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())>& operator OP##=(MeshData<E, T>& lhs, const U& rhs) {   \
     checkMeshValid(lhs);                                                                                               \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) lhs.raw()[i] OP## = rhs;                                       \
+    for (E e : iterateElements<E>(lhs.getMesh())) lhs[e] OP## = rhs;                                                  \
     return lhs;                                                                                                        \
   }
 
-- 
2.43.0


From b4464387fc0374e56cd6ab0ddb9a59463fa175b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 016/103] fix: PointData outliving its PointCloud deregistered
 itself from freed memory

---
 src/pointcloud/point_cloud.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index f2dc02e..902126e 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -23,7 +23,11 @@ PointCloud::PointCloud(size_t nPts) {
   isCompressedFlag = true;
 }
 
-PointCloud::~PointCloud() {}
+PointCloud::~PointCloud() {
+  for (auto& f : meshDeleteCallbackList) {
+    f();
+  }
+}
 
 
 // ==========================================================
-- 
2.43.0


From fe38ae99eee3bdd07a89749e83e7b3dd71290026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 017/103] fix: adding the first point to an empty point cloud
 wrote out of bounds

---
 src/pointcloud/point_cloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index 902126e..c87500b 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -103,7 +103,7 @@ Point PointCloud::getNewPoint() {
   }
   // The intesting case, where vectors resize
   else {
-    size_t newCapacity = nPointsCapacityCount * 2;
+    size_t newCapacity = std::max<size_t>(1, nPointsCapacityCount * 2);
 
     // Resize internal arrays
     pointValid.resize(newCapacity);
-- 
2.43.0


From 227a241532acc0f6e6913bef7b7a44a82798f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 018/103] fix: nConnectedComponents() did not connect vertices
 along boundary and nonmanifold edges of general meshes

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index a6f78dd..65d50da 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -443,7 +443,7 @@ size_t SurfaceMesh::nConnectedComponents() {
   VertexData<size_t> vertInd = getVertexIndices();
   DisjointSets dj(nVertices());
   for (Edge e : edges()) {
-    dj.merge(vertInd[e.halfedge().vertex()], vertInd[e.halfedge().twin().vertex()]);
+    dj.merge(vertInd[e.halfedge().tailVertex()], vertInd[e.halfedge().tipVertex()]);
   }
   std::unordered_set<size_t> distinctComponents;
   for (size_t i = 0; i < nVertices(); i++) {
-- 
2.43.0


From e5d2ae6c5fb15c2b37776df51489566d6e2fb2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 019/103] fix: duplicateFace() counted the interior halfedges
 of the new face as exterior

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 65d50da..6c54d4a 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -812,7 +812,7 @@ Face SurfaceMesh::duplicateFace(Face f) {
   bool first = true;
   Halfedge prevNewHe, firstNewHe;
   for (Halfedge oldHe : f.adjacentHalfedges()) {
-    Halfedge newHe = getNewHalfedge(false);
+    Halfedge newHe = getNewHalfedge(true);
 
     if (first) {
       fHalfedgeArr[newFace.getIndex()] = newHe.getIndex();
-- 
2.43.0


From a89042ae14869ba0ad5ede3532875de4e38cde10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 020/103] fix: Vertex::isManifold() missed vertices where one
 face has corners in several fans

---
 .../surface/halfedge_element_types.ipp        | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/geometrycentral/surface/halfedge_element_types.ipp b/include/geometrycentral/surface/halfedge_element_types.ipp
index f2d2b9d..1f3a30b 100644
--- a/include/geometrycentral/surface/halfedge_element_types.ipp
+++ b/include/geometrycentral/surface/halfedge_element_types.ipp
@@ -70,24 +70,21 @@ inline bool Vertex::isManifold() const {
     if(!e.isManifold()) return false;
   }
   
-  // test if there is a single edge-connected component
-  std::vector<Face> toProc{halfedge().face()};
-  std::unordered_set<Face> seen;
+  // test if there is a single edge-connected component of corners (note that a face may have several corners here)
+  std::vector<Halfedge> toProc{halfedge()};
+  std::unordered_set<Halfedge> seen;
   while(!toProc.empty()) {
-    Face f = toProc.back();
+    Halfedge he = toProc.back(); // outgoing halfedge defining the corner
     toProc.pop_back();
-    if(seen.find(f) != seen.end()) continue;
-    seen.insert(f);
-    for(Halfedge he : f.adjacentHalfedges()) {
-      if(he.vertex()  == *this || he.next().vertex() ==*this) {
-        for(Face fn : he.edge().adjacentFaces()) {
-          if(seen.find(fn) == seen.end()) toProc.push_back(fn);
-        }
-      }
-    }
+    if(!seen.insert(he).second) continue;
+    Halfedge heS = he.sibling();
+    if(heS != he) toProc.push_back(heS.orientation() == he.orientation() ? heS : heS.next());
+    Halfedge hePrev = he.prevOrbitFace();
+    Halfedge hePrevS = hePrev.sibling();
+    if(hePrevS != hePrev) toProc.push_back(hePrevS.orientation() == hePrev.orientation() ? hePrevS.next() : hePrevS);
   }
-  for (Face f : adjacentFaces()) { 
-    if(seen.find(f) == seen.end()) return false;
+  for (Halfedge he : outgoingHalfedges()) { 
+    if(seen.find(he) == seen.end()) return false;
   }
 
   return true;
-- 
2.43.0


From 3d426fe411bed283b30a5dd6d5b0848b0057db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 021/103] fix: Vertex::isManifoldAndOriented() was false at
 every boundary vertex of a general mesh

---
 .../surface/halfedge_element_types.ipp        | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/geometrycentral/surface/halfedge_element_types.ipp b/include/geometrycentral/surface/halfedge_element_types.ipp
index 1f3a30b..3ac716c 100644
--- a/include/geometrycentral/surface/halfedge_element_types.ipp
+++ b/include/geometrycentral/surface/halfedge_element_types.ipp
@@ -46,21 +46,12 @@ inline bool Vertex::isBoundary() const {
   }
 }
 inline bool Vertex::isManifoldAndOriented() const {
-  // TODO this routine is actually pretty nontrivial, it probably deserves some more thought
-  // strategy: bootstrap off of the adjacency iterator, which already has functionality for nonmanifold vertices
   if(mesh->usesImplicitTwin()) return true;
-  size_t d = degree(); 
-  size_t kManif = 0; 
-  Halfedge firstHe = halfedge();
-  Halfedge currHe = firstHe;
-  do {
-    kManif++;
-    currHe = currHe.twin().next();
-    if(currHe.vertex() != *this) return false;
-    if(kManif > d) return false;
-  } while(currHe != firstHe);
-
-  return kManif == d;
+  if(!isManifold()) return false;
+  for(Edge e : adjacentEdges()) {
+    if(!e.isOriented()) return false;
+  }
+  return true;
 }
 inline bool Vertex::isManifold() const { 
   if(mesh->usesImplicitTwin()) return true;
-- 
2.43.0


From 7e67d157e64cc10253c0d5e47e0903108b9332bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 022/103] fix: the twin-list constructor of ManifoldSurfaceMesh
 accepted unreferenced and pinched vertices

---
 src/surface/manifold_surface_mesh.cpp | 45 +++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 4fbfa87..d5d373f 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -285,6 +285,11 @@ ManifoldSurfaceMesh::ManifoldSurfaceMesh(const std::vector<std::vector<size_t>>&
   vHalfedgeArr = std::vector<size_t>(nVerticesCount, INVALID_IND);
   fHalfedgeArr = std::vector<size_t>(nFacesCount, INVALID_IND);
 
+  // Sanity check to detect unreferenced vertices
+#ifndef NGC_SAFETY_CHECKS
+  std::vector<char> vertUsed(nVerticesCount, false);
+#endif
+
   // NOTE IMPORTANT DIFFERENCE: in the first face-only constructor, these keys are (vInd, vInd) pairs, but here they
   // are (fInd, heInFInd) pairs.
 
@@ -313,6 +318,10 @@ ManifoldSurfaceMesh::ManifoldSurfaceMesh(const std::vector<std::vector<size_t>>&
       size_t indTail = poly[iFaceHe];
       size_t indTip = poly[(iFaceHe + 1) % faceDegree];
 
+#ifndef NGC_SAFETY_CHECKS
+      vertUsed[indTail] = true;
+#endif
+
       // Get an index for this halfedge
       std::tuple<size_t, size_t> heKey{iFace, iFaceHe};
       std::tuple<size_t, size_t> heTwinKey{std::get<0>(polyTwin[iFaceHe]), std::get<1>(polyTwin[iFaceHe])};
@@ -357,9 +366,14 @@ ManifoldSurfaceMesh::ManifoldSurfaceMesh(const std::vector<std::vector<size_t>>&
     heNextArr[prevHeInd] = firstHeInd; // hook up the first next() pointer, which we missed in the loop above
   }
 
-// Ensure that each boundary neighborhood is either a disk or a half-disk. Harder to diagnose if we wait until the
-// boundary walk below.
 #ifndef NGC_SAFETY_CHECKS
+  // Look for any vertices which were unreferenced
+  for (size_t iV = 0; iV < nVerticesCount; iV++) {
+    GC_SAFETY_ASSERT(vertUsed[iV], "unreferenced vertex " + std::to_string(iV));
+  }
+
+  // Ensure that each boundary neighborhood is either a disk or a half-disk. Harder to diagnose if we wait until the
+  // boundary walk below.
   {
     std::vector<char> vertexOnBoundary(nVerticesCount, false);
     for (size_t iHe = 0; iHe < nHalfedgesCount; iHe++) {
@@ -429,13 +443,40 @@ ManifoldSurfaceMesh::ManifoldSurfaceMesh(const std::vector<std::vector<size_t>>&
   // Set capacities and other properties
   nVerticesCapacityCount = nVerticesCount;
   nHalfedgesCapacityCount = nHalfedgesCount;
+  nEdgesCapacityCount = nEdgesCount;
   nFacesCapacityCount = nFacesCount + nBoundaryLoopsCount;
   nVerticesFillCount = nVerticesCount;
   nHalfedgesFillCount = nHalfedgesCount;
+  nEdgesFillCount = nEdgesCount;
   nFacesFillCount = nFacesCount;
   nBoundaryLoopsFillCount = nBoundaryLoopsCount;
   isCompressedFlag = true;
 
+#ifndef NGC_SAFETY_CHECKS
+  { // Check that the input was manifold in the sense that each vertex has a single connected loop of faces around it.
+    std::vector<char> halfedgeSeen(nHalfedgesCount, false);
+    for (size_t iV = 0; iV < nVerticesCount; iV++) {
+
+      // For each vertex, orbit around the outgoing halfedges. This _should_ touch every halfedge.
+      size_t currHe = vHalfedgeArr[iV];
+      size_t firstHe = currHe;
+      do {
+
+        GC_SAFETY_ASSERT(!halfedgeSeen[currHe], "somehow encountered outgoing halfedge before orbiting v");
+        halfedgeSeen[currHe] = true;
+
+        currHe = heNextArr[heTwinImplicit(currHe)];
+      } while (currHe != firstHe);
+    }
+
+    // Verify that we actually did touch every halfedge.
+    for (size_t iHe = 0; iHe < nHalfedgesCount; iHe++) {
+      GC_SAFETY_ASSERT(halfedgeSeen[iHe], "mesh not manifold. Vertex " + std::to_string(heVertexArr[iHe]) +
+                                              " has disconnected neighborhoods incident (imagine an hourglass)");
+    }
+  }
+#endif
+
   // Print some nice statistics
   // printStatistics();
   // std::cout << "Construction took " << pretty_time(FINISH_TIMING(construction)) << std::endl;
-- 
2.43.0


From e1045945b5135613f09141430bb5eb3906d25118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 023/103] fix: Edge::diamondBoundary() accepted faces of degree
 one as triangles

---
 include/geometrycentral/surface/halfedge_element_types.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geometrycentral/surface/halfedge_element_types.ipp b/include/geometrycentral/surface/halfedge_element_types.ipp
index 3ac716c..7e417a9 100644
--- a/include/geometrycentral/surface/halfedge_element_types.ipp
+++ b/include/geometrycentral/surface/halfedge_element_types.ipp
@@ -306,8 +306,8 @@ inline std::array<Halfedge,4> Edge::diamondBoundary() const {
 #ifndef NGC_SAFETY_CHECKS
    if(hT == h || !hT.isInterior()) throw std::runtime_error("cannot construct diamondBoundary() of boundary edge");
    if(hT.sibling() != h) throw std::runtime_error("cannot construct diamondBoundary() of nonmanifold edge");
-   if(hNN.next() != h) throw std::runtime_error("cannot construct diamondBoundary() for non-triangular face");
-   if(hTNN.next() != hT) throw std::runtime_error("cannot construct diamondBoundary() for non-triangular face");
+   if(hN == h || hNN.next() != h) throw std::runtime_error("cannot construct diamondBoundary() for non-triangular face");
+   if(hTN == hT || hTNN.next() != hT) throw std::runtime_error("cannot construct diamondBoundary() for non-triangular face");
 #endif
 
    return std::array<Halfedge, 4>{hN, hNN, hTN, hTNN};
-- 
2.43.0


From 2e2ef836c467fa7a5a13274017a1604c6625c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:38 +0000
Subject: [PATCH 024/103] fix: MutationManager::flipEdge() called the
 before-handlers on a mesh changed by a trial flip, which it might not even
 undo

---
 .../geometrycentral/surface/surface_mesh.h    |  3 ++
 src/surface/mutation_manager.cpp              | 11 +----
 src/surface/surface_mesh.cpp                  | 41 ++++++++++++++-----
 3 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/include/geometrycentral/surface/surface_mesh.h b/include/geometrycentral/surface/surface_mesh.h
index fbbc507..5c918c3 100644
--- a/include/geometrycentral/surface/surface_mesh.h
+++ b/include/geometrycentral/surface/surface_mesh.h
@@ -156,6 +156,9 @@ public:
   // elements, or cause the mesh to become decompressed.
   bool flip(Edge e, bool preventSelfEdges = true);
 
+  // Would flip(e, preventSelfEdges) succeed?
+  bool canFlip(Edge e, bool preventSelfEdges = true) const;
+
   // Given two distinct halfedges both incident along some edge `e`, peel them them off of `e`, forming a new edge
   // `e_new` for just those two halfedges. Any other halfedges incident on `e` will be unchanged. If these are the only
   // two halfedges incident on `e`, then `e_new = e` and the mesh is unchanged. Return `e_new`. This operation only has
diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 31b8483..8d6267f 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -111,18 +111,11 @@ bool MutationManager::repositionVertex(Vertex vert, Vector3 offset) {
 bool MutationManager::flipEdge(Edge e) {
   if (!mayFlipEdge(e)) return false;
 
-  // First do a test flip to see if its possible
-  // TODO implement canFlip() to avoid this
-  bool canFlip = mesh.flip(e);
-
-  // Might not have been flippable for connectivity reasons
-  if (!canFlip) {
+  // Might not be flippable for connectivity reasons
+  if (!mesh.canFlip(e)) {
     return false;
   }
 
-  // Undo the test flip
-  mesh.flip(e);
-
   // Invoke before callbacks
   for (EdgeFlipPolicy* policy : edgeFlipPolicies) {
     policy->beforeEdgeFlip(e);
diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 6c54d4a..9b6b090 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -845,7 +845,7 @@ Face SurfaceMesh::duplicateFace(Face f) {
   return newFace;
 }
 
-bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
+bool SurfaceMesh::canFlip(Edge eFlip, bool preventSelfEdges) const {
   if (eFlip.isBoundary()) return false;
 
   // Get halfedges of first face
@@ -863,6 +863,35 @@ bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
   if (hb1.sibling() != ha1) return false;     // not manifold
   if (ha2 == hb1 || hb2 == ha1) return false; // incident on degree 1 vertex
 
+  if (preventSelfEdges) {
+    Vertex vc = ha3.vertex();
+    Vertex vd = hb3.vertex();
+
+    // If enabled, make sure it does not become a self-edge
+    if (vc == vd) return false;
+
+    // ...and that it is not a duplicate
+    for (Vertex v : vc.adjacentVertices()) {
+      if (v == vd) return false;
+    }
+  }
+
+  return true;
+}
+
+bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
+  if (!canFlip(eFlip, preventSelfEdges)) return false;
+
+  // Get halfedges of first face
+  Halfedge ha1 = eFlip.halfedge();
+  Halfedge ha2 = ha1.next();
+  Halfedge ha3 = ha2.next();
+
+  // Get halfedges of second face
+  Halfedge hb1 = ha1.sibling();
+  Halfedge hb2 = hb1.next();
+  Halfedge hb3 = hb2.next();
+
   // if the faces have different orientation, temporarily orient and try again
   if (ha1.orientation() == hb1.orientation()) { // same edge orientation means different face orientation
     invertOrientation(ha1.face());
@@ -877,16 +906,6 @@ bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
   Vertex vc = ha3.vertex();
   Vertex vd = hb3.vertex();
 
-  if (preventSelfEdges) {
-    // If enabled, make sure it does not become a self-edge
-    if (vc == vd) return false;
-
-    // ...and that it is not a duplicate
-    for (Vertex v : vc.adjacentVertices()) {
-      if (v == vd) return false;
-    }
-  }
-
   Face fa = ha1.face();
   Face fb = hb1.face();
 
-- 
2.43.0


From 49a6d5ef14ba67858ac002706e7950ff688b05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 025/103] fix: MutationManager::collapseEdge() called the
 before-handlers for collapses that were then refused

---
 .../surface/manifold_surface_mesh.h           |  3 +
 src/surface/manifold_surface_mesh.cpp         | 80 ++++++++++++-------
 src/surface/mutation_manager.cpp              |  4 +-
 3 files changed, 57 insertions(+), 30 deletions(-)

diff --git a/include/geometrycentral/surface/manifold_surface_mesh.h b/include/geometrycentral/surface/manifold_surface_mesh.h
index 76f72f6..8819050 100644
--- a/include/geometrycentral/surface/manifold_surface_mesh.h
+++ b/include/geometrycentral/surface/manifold_surface_mesh.h
@@ -70,6 +70,9 @@ public:
   // collapsible. Assumes triangular simplicial complex as input (at least in neighborhood of collapse).
   Vertex collapseEdgeTriangular(Edge e);
 
+  // Would collapseEdgeTriangular(e) collapse the edge?
+  bool canCollapseEdgeTriangular(Edge e) const;
+
   // Removes a vertex, leaving a high-degree face. If the input is a boundary vertex, preserves an edge along the
   // boundary. Return Face() if impossible (generally because doing so would make a manifold mesh nonmanifold).
   Face removeVertex(Vertex v);
diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index d5d373f..03f158a 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1092,39 +1092,77 @@ Vertex ManifoldSurfaceMesh::insertVertex(Face fIn) {
 }
 
 
-Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
-  /*  must maintain these
-      std::vector<size_t> heNextArr;    // he.next(), forms a circular singly-linked list in each face
-      std::vector<size_t> heVertexArr;  // he.vertex()
-      std::vector<size_t> heFaceArr;    // he.face()
-      std::vector<size_t> vHalfedgeArr; // v.halfedge()
-      std::vector<size_t> fHalfedgeArr; // f.halfedge()
-  */
+bool ManifoldSurfaceMesh::canCollapseEdgeTriangular(Edge e) const {
 
   // check triangular
   GC_SAFETY_ASSERT(e.halfedge().face().isTriangle(), "neighborhood must be triangular");
   GC_SAFETY_ASSERT(e.isBoundary() || e.halfedge().twin().face().isTriangle(), "neighborhood must be triangular");
 
+  Halfedge heA0 = e.halfedge();
+
   // assuming on triangle mesh
   if (e.isBoundary()) {
-    // Gather some values
-    Halfedge heA0 = e.halfedge();
-
     // check if edge is part of a 'pinch' triangle
     if (heA0.twin().next().next().next() == heA0.twin()) {
-      return Vertex();
+      return false;
     }
     for (Halfedge he1 : heA0.tipVertex().outgoingHalfedges()) {
       for (Halfedge he2 : he1.tipVertex().outgoingHalfedges()) {
         if (!(heA0.next() == he1 && he1.next() == he2) &&
             !(he1.twin().next().twin() == heA0 && he2.twin().next().twin() == he1)) { // not just going around a face
           if (he2.tipVertex() == heA0.vertex()) {
-            return Vertex();
+            return false;
           }
         }
       }
     }
+  }
 
+  else {
+    if (heA0.vertex().isBoundary() && heA0.twin().vertex().isBoundary()) {
+      return false;
+    }
+    if (heA0.vertex().isBoundary()) {
+      heA0 = heA0.twin();
+    }
+
+    // check if edge is part of a 'pinch' triangle
+    for (Halfedge he1 : heA0.tipVertex().outgoingHalfedges()) {
+      for (Halfedge he2 : he1.tipVertex().outgoingHalfedges()) {
+        if (!(heA0.next() == he1 && he1.next() == he2) &&
+            !(he1.twin().next().twin() == heA0 && he2.twin().next().twin() == he1)) { // not just going around a face
+          if (he2.tipVertex() == heA0.vertex()) {
+            // std::cerr<<heA0<<" "<<he1<<" "<<he2<<"\n";
+            return false;
+          }
+        }
+      }
+    }
+
+    if (heA0.vertex().degree() < 3) {
+      throw std::runtime_error("Collapsing interior vertices with degree < 3 is not supported.");
+    }
+  }
+
+  return true;
+}
+
+
+Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
+  /*  must maintain these
+      std::vector<size_t> heNextArr;    // he.next(), forms a circular singly-linked list in each face
+      std::vector<size_t> heVertexArr;  // he.vertex()
+      std::vector<size_t> heFaceArr;    // he.face()
+      std::vector<size_t> vHalfedgeArr; // v.halfedge()
+      std::vector<size_t> fHalfedgeArr; // f.halfedge()
+  */
+
+  if (!canCollapseEdgeTriangular(e)) return Vertex();
+
+  // assuming on triangle mesh
+  if (e.isBoundary()) {
+    // Gather some values
+    Halfedge heA0 = e.halfedge();
     Halfedge heA1 = heA0.next();
     Halfedge heA2 = heA1.next();
 
@@ -1222,26 +1260,10 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
 
   else {
     Halfedge heA0 = e.halfedge();
-    if (heA0.vertex().isBoundary() && heA0.twin().vertex().isBoundary()) {
-      return Vertex();
-    }
     if (heA0.vertex().isBoundary()) {
       heA0 = heA0.twin();
     }
 
-    // check if edge is part of a 'pinch' triangle
-    for (Halfedge he1 : heA0.tipVertex().outgoingHalfedges()) {
-      for (Halfedge he2 : he1.tipVertex().outgoingHalfedges()) {
-        if (!(heA0.next() == he1 && he1.next() == he2) &&
-            !(he1.twin().next().twin() == heA0 && he2.twin().next().twin() == he1)) { // not just going around a face
-          if (he2.tipVertex() == heA0.vertex()) {
-            // std::cerr<<heA0<<" "<<he1<<" "<<he2<<"\n";
-            return Vertex();
-          }
-        }
-      }
-    }
-
     if (heA0.vertex().degree() > 3) {
       Halfedge heA1 = heA0.next();
       Halfedge heA2 = heA1.next();
diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 8d6267f..09be004 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -215,8 +215,10 @@ Vertex MutationManager::collapseEdge(Edge e, Vector3 newVertexPosition) {
 Vertex MutationManager::collapseEdge(Edge e, double tCollapse, Vector3 newVertexPosition) {
   if (!mayCollapseEdge(e)) return Vertex();
 
+  // Might not be collapsible for connectivity reasons
+  if (!mesh.canCollapseEdgeTriangular(e)) return Vertex();
+
   // Invoke before callbacks
-  // TODO need to handle possiblity that collapse fails -- check before calling
   for (EdgeCollapsePolicy* policy : edgeCollapsePolicies) {
     policy->beforeEdgeCollapse(e, tCollapse);
   }
-- 
2.43.0


From 50af5fb48e5690d9c7a72e2d79b0a591a3f17461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 026/103] fix: MutationManager::removePolicy() left face-split
 handlers in place, pointing at the deleted policy

---
 src/surface/mutation_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 09be004..98af67a 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -388,6 +388,7 @@ void MutationManager::removePolicy(const MutationPolicyHandle& toRemove) {
   removeFromVector(edgeFlipPolicies, toRemove.policy);
   removeFromVector(edgeSplitPolicies, toRemove.policy);
   removeFromVector(edgeCollapsePolicies, toRemove.policy);
+  removeFromVector(faceSplitPolicies, toRemove.policy);
 
   // deletion happens here
   removeUniquePtrFromVector(allPolicies, toRemove.policy);
-- 
2.43.0


From c724ce58bc84a8866143ff50b387bc34b232024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 027/103] fix: MutationManager::collapseEdge(Edge, Vector3)
 gave the handlers t = -1 in place of the nearest location

---
 src/surface/mutation_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 98af67a..2f9f110 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -207,7 +207,7 @@ Vertex MutationManager::collapseEdge(Edge e, Vector3 newVertexPosition) {
     VertexData<Vector3>& pos = geometry->vertexPositions;
     Vector3 posTail = pos[e.halfedge().tailVertex()];
     Vector3 posTip = pos[e.halfedge().tipVertex()];
-    double tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
+    tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
   }
 
   return collapseEdge(e, tCollapse, newVertexPosition);
-- 
2.43.0


From a57ad81c97df8bc145e3ad8a1ab4cb80868ab40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:12 +0000
Subject: [PATCH 028/103] fix: shortestEdgePath() missed neighbours on general
 meshes, where the twin of a halfedge may run the same way

---
 src/surface/mesh_graph_algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/mesh_graph_algorithms.cpp b/src/surface/mesh_graph_algorithms.cpp
index d08c106..025c820 100644
--- a/src/surface/mesh_graph_algorithms.cpp
+++ b/src/surface/mesh_graph_algorithms.cpp
@@ -35,7 +35,7 @@ std::vector<Halfedge> shortestEdgePath(IntrinsicGeometryInterface& geom, Vertex
   };
   auto enqueueVertexNeighbors = [&](Vertex v, double dist) {
     for (Halfedge he : v.outgoingHalfedges()) {
-      if (!vertexDiscovered(he.twin().vertex())) {
+      if (!vertexDiscovered(he.tipVertex())) {
         double len = geom.edgeLengths[he.edge()];
         double targetDist = dist + len;
         pq.emplace(targetDist, he);
@@ -53,7 +53,7 @@ std::vector<Halfedge> shortestEdgePath(IntrinsicGeometryInterface& geom, Vertex
     Halfedge currIncomingHalfedge = std::get<1>(pq.top());
     pq.pop();
 
-    Vertex currVert = currIncomingHalfedge.twin().vertex();
+    Vertex currVert = currIncomingHalfedge.tipVertex();
     if (vertexDiscovered(currVert)) continue;
 
     // Accept the neighbor
-- 
2.43.0


From 458289e505a2689544994b8de04a2daa47079f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 029/103] fix: after the error reported by releasing a quantity
 too often its request count stayed at -1, so the next request did not hold
 and a purge discarded a requested quantity

---
 include/geometrycentral/utilities/dependent_quantity.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index eca0e20..11b3713 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -28,8 +28,8 @@ inline void DependentQuantity::unrequire() {
   requireCount--;
 
   if (requireCount < 0) {
-    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
     requireCount = 0;
+    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
   }
 }
 
-- 
2.43.0


From 286b649081303efe74680107445bdd3281a30fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 030/103] fix: the point-cloud connection Laplacian read the
 tangent basis without making sure it was computed: requesting it after the
 Laplacian and a purge reads discarded data

---
 src/pointcloud/point_position_geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 4b992ef..aadd96f 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -213,6 +213,7 @@ void PointPositionGeometry::unrequireLaplacian() { laplacianQ.unrequire(); }
 void PointPositionGeometry::computeConnectionLaplacian() {
   laplacianQ.ensureHave();
   normalsQ.ensureHave();
+  tangentBasisQ.ensureHave();
 
   // Build the conection Laplacian by hitting each entry of the Laplacian with a tangent rotation r_ij between the
   // corresponding vertices
-- 
2.43.0


From 84f89c16dcc3ef20208f2836517093f6838c4cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 031/103] fix: SurfacePoint::inEdge() put a vertex at the wrong
 end of the edge, and the vector between two points of an edge pointed
 backwards

---
 include/geometrycentral/surface/barycentric_vector.ipp | 2 +-
 include/geometrycentral/surface/surface_point.ipp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 04f74d8..528ec36 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -31,7 +31,7 @@ inline BarycentricVector::BarycentricVector(SurfacePoint pA, SurfacePoint pB) {
     double a = pA_in_edge.tEdge;
     double b = pB_in_edge.tEdge;
     edge = e;
-    edgeCoords = Vector2{b - a, a - b};
+    edgeCoords = Vector2{a - b, b - a}; // (weights at the first and second vertex of the edge)
     return;
   }
 
diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index 3c4f0b0..63a55c9 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -151,9 +151,9 @@ inline SurfacePoint SurfacePoint::inEdge(Edge targetEdge) const {
   switch (type) {
   case SurfacePointType::Vertex:
     if (vertex == targetEdge.halfedge().tailVertex()) {
-      return SurfacePoint(targetEdge, 1);
-    } else if (vertex == targetEdge.halfedge().tipVertex()) {
       return SurfacePoint(targetEdge, 0);
+    } else if (vertex == targetEdge.halfedge().tipVertex()) {
+      return SurfacePoint(targetEdge, 1);
     }
     break;
   case SurfacePointType::Edge:
-- 
2.43.0


From 4dd37e10ed03702007f4e5c5b9e40f80e5d00590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 032/103] fix: BarycentricVector::inFace() answered for faces
 that do not contain the vector's edge instead of reporting an error

---
 include/geometrycentral/surface/barycentric_vector.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 528ec36..8e9fd4f 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -117,9 +117,11 @@ inline BarycentricVector BarycentricVector::inFace(Face targetFace) const {
       return BarycentricVector(targetFace, faceCoords);
     }
     he = he.next();
-    Vector3 faceCoords =
-        he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
-    return BarycentricVector(targetFace, faceCoords);
+    if (edge == he.edge()) {
+      Vector3 faceCoords =
+          he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
+      return BarycentricVector(targetFace, faceCoords);
+    }
     break;
   }
   case BarycentricVectorType::Vertex:
-- 
2.43.0


From 6e28eb22daec4d5586ab630dd53f891b710e20d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 033/103] fix: checkAdjacent() took points on the same boundary
 loop for points of a common face

---
 src/surface/surface_point.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/surface/surface_point.cpp b/src/surface/surface_point.cpp
index 1c98c4c..d731f87 100644
--- a/src/surface/surface_point.cpp
+++ b/src/surface/surface_point.cpp
@@ -20,7 +20,7 @@ bool checkAdjacent(Vertex vA, Vertex vB) {
 bool checkAdjacent(Vertex vA, Edge eB) {
   bool adjacent = false;
   for (Halfedge he : vA.outgoingHalfedges()) {
-    if (eB == he.next().edge()) adjacent = true;
+    if (he.isInterior() && eB == he.next().edge()) adjacent = true; // (a boundary loop is not a shared face)
     if (eB == he.edge()) adjacent = true;
   }
   return adjacent;
@@ -39,11 +39,12 @@ bool checkAdjacent(Edge eA, Vertex vB) { return checkAdjacent(vB, eA); }
 bool checkAdjacent(Edge eA, Edge eB) {
   bool adjacent = false;
 
-  // Must have a shared face
-  adjacent |= (eA.halfedge().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().face() == eB.halfedge().twin().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().twin().face());
+  // Must have a shared face (boundary loops do not count)
+  for (Face fA : eA.adjacentFaces()) {
+    for (Face fB : eB.adjacentFaces()) {
+      if (fA == fB) adjacent = true;
+    }
+  }
 
   return adjacent;
 }
-- 
2.43.0


From a30b6dc2c0793641001ee71eee033069247f6b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 034/103] fix: loopSubdivide() did not recognise, or refused to
 flip, the edges of the refinement pattern on meshes with repeated edges or
 self-edges, leaving a different connectivity

---
 src/surface/subdivide.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index adfe0f0..d3a2e60 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -218,14 +218,12 @@ void loopSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo, Mutat
   for (Edge e : mesh.edges()) {
     if (!isOrigEdge[e]) continue;
 
-    // gather both vertices incident on the edge
-    Vertex oldA = e.halfedge().tipVertex();
-    Vertex oldB = e.halfedge().tailVertex();
-
     Vector3 newPos = splitVertexPositions[e];
 
     // split the edge
-    Vertex newV = mm.splitEdge(e, newPos).vertex();
+    Halfedge newHe = mm.splitEdge(e, newPos);
+    Vertex newV = newHe.vertex();
+    std::array<Edge, 2> halves{newHe.edge(), newHe.prevOrbitFace().twin().prevOrbitFace().edge()};
     isOrigVert[newV] = false;
     newPositions[newV] = newPos;
 
@@ -236,14 +234,14 @@ void loopSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo, Mutat
 
       // if this is a new edge between an old an new vertex, save for
       // flipping
-      if (isOrigVert[otherV] && otherV != oldA && otherV != oldB) {
+      if (isOrigVert[otherV] && e != halves[0] && e != halves[1]) {
         toFlip.push_back(e);
       }
     }
   }
 
   for (Edge e : toFlip) {
-    mesh.flip(e);
+    mesh.flip(e, false); // the refined mesh may have repeated edges where the original one does
   }
 
   mesh.compress();
-- 
2.43.0


From e611bb11687dcb33372b1ccb488837bfeb5e33d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 035/103] fix: loopSubdivide() moved boundary vertices by the
 interior rule (towards the interior), while boundary edges used the boundary
 rule

---
 src/surface/subdivide.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index d3a2e60..e3215e8 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -3,6 +3,17 @@
 namespace geometrycentral {
 namespace surface {
 
+namespace {
+// New position of a boundary vertex: the boundary is subdivided as a cubic B-spline curve
+Vector3 boundaryCurvePosition(Vertex v, const VertexData<Vector3>& pos) {
+  Vector3 result = 6. / 8. * pos[v];
+  for (Edge e : v.adjacentEdges()) {
+    if (e.isBoundary()) result += 1. / 8. * pos[e.otherVertex(v)];
+  }
+  return result;
+}
+} // namespace
+
 void linearSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo) {
 
   VertexData<Vector3>& pos = geo.inputVertexPositions;
@@ -195,6 +206,10 @@ void loopSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo, Mutat
   VertexData<Vector3> newPositions(mesh);
   for (Vertex v : mesh.vertices()) {
     double n = (double)v.degree();
+    if (v.isBoundary()) {
+      newPositions[v] = boundaryCurvePosition(v, pos);
+      continue;
+    }
     double u = (n == 3) ? 3. / 16. : 3. / (8. * n);
     newPositions[v] = (1 - n * u) * pos[v];
     for (Vertex w : v.adjacentVertices()) {
-- 
2.43.0


From a8b17a17078cf6822bf84cfe815e3f68a914d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 036/103] fix: catmullClarkSubdivide() left the edge's
 endpoints out of edge points and used edge points for edge midpoints in the
 vertex rule, and on meshes with boundary read the face point of a boundary
 loop (out of range)

---
 src/surface/subdivide.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index e3215e8..d43d001 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -110,18 +110,29 @@ void catmullClarkSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& ge
     }
   }
 
+  EdgeData<Vector3> edgeMidpoints(mesh);
   EdgeData<Vector3> splitEdgePositions(mesh);
   for (Edge e : mesh.edges()) {
-    std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
-    splitEdgePositions[e] = (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]]) / 2.;
+    edgeMidpoints[e] = (pos[e.halfedge().tailVertex()] + pos[e.halfedge().tipVertex()]) / 2.;
+    if (e.isBoundary()) {
+      splitEdgePositions[e] = edgeMidpoints[e];
+    } else {
+      std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
+      splitEdgePositions[e] =
+          (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]] + 2. * edgeMidpoints[e]) / 4.;
+    }
   }
 
   for (Vertex v : mesh.vertices()) {
+    if (v.isBoundary()) {
+      newPositions[v] = boundaryCurvePosition(v, pos);
+      continue;
+    }
     double D = (double)v.degree();
     Vector3 S = geo.inputVertexPositions[v];
     Vector3 R = Vector3::zero();
     for (Edge e : v.adjacentEdges()) {
-      R += splitEdgePositions[e] / D;
+      R += edgeMidpoints[e] / D;
     }
     Vector3 Q = Vector3::zero();
     for (Face f : v.adjacentFaces()) {
-- 
2.43.0


From 5ee9a7cd33de02d10844a3b34459dc810d7434c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 037/103] fix: checkFinite() of a row vector read entries of a
 second row

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 984178a..4cec3f9 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -143,7 +143,7 @@ inline void checkFinite(const Eigen::Matrix<T, R, C>& m) {
 template <typename T, int C>
 inline void checkFinite(const Eigen::Matrix<T, 1, C>& m) {
   for (unsigned int j = 0; j < m.cols(); j++) {
-    if (!std::isfinite(m(1, j))) {
+    if (!isfinite(m(j))) {
       std::ostringstream msg;
       msg << "checkFinite() failure. Non-finite row vector entry [" << j << "] = " << m(j);
       // std::cerr << msg.str() << std::endl;
-- 
2.43.0


From d262274dcc357a35658d8459b3d9daaa6fc28af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 038/103] fix: unpackMatrixToStdVector() only compiled for
 matrices of size_t

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 4cec3f9..b59da30 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -96,7 +96,7 @@ std::vector<std::vector<T>> unpackMatrixToStdVector(const DenseMatrix<T>& mat) {
   size_t M = static_cast<size_t>(mat.cols());
 
   // Copy to vector representation
-  std::vector<std::vector<size_t>> vectors(N);
+  std::vector<std::vector<T>> vectors(N);
   for (size_t i = 0; i < N; i++) {
     vectors[i].resize(M);
     for (size_t j = 0; j < M; j++) {
-- 
2.43.0


From b9bfb21f7180ec44def16e46634b74070ecd4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 039/103] fix: checkSymmetric() and checkHermitian() read out
 of range on matrices that are not square, or accepted them

---
 .../geometrycentral/numerical/linear_algebra_utilities.ipp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index b59da30..cf53c5c 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -170,6 +170,8 @@ inline void checkFinite(const Eigen::Matrix<T, R, 1>& m) {
 template <typename T>
 inline void checkSymmetric(const SparseMatrix<T>& m, double absoluteEPS) {
 
+  if (m.rows() != m.cols()) throw std::logic_error("checkSymmetric() error. Matrix is not square.");
+
   double eps = absoluteEPS;
   // Compute a scale factor for the matrix to use for closeness tests
   if (eps == -1.) {
@@ -208,6 +210,8 @@ inline void checkSymmetric(const SparseMatrix<T>& m, double absoluteEPS) {
 template <typename T>
 inline void checkHermitian(const SparseMatrix<T>& m, double absoluteEPS) {
 
+  if (m.rows() != m.cols()) throw std::logic_error("checkHermitian() error. Matrix is not square.");
+
   double eps = absoluteEPS;
   // Compute a scale factor for the matrix to use for closeness tests
   if (eps == -1.) {
-- 
2.43.0


From b4377602cd7e3b7bd54c9ebf3a844e16026b26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 040/103] fix: kNearest() with k = 0 took the address of an
 element of an empty vector

---
 src/utilities/knn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities/knn.cpp b/src/utilities/knn.cpp
index 2bcf57a..973fbd3 100644
--- a/src/utilities/knn.cpp
+++ b/src/utilities/knn.cpp
@@ -43,6 +43,7 @@ public:
 
   std::vector<size_t> kNearest(Vector3 query, size_t k) {
     if (k > data.rawPoints.size()) throw std::runtime_error("k is greater than number of points");
+    if (k == 0) return {};
     std::vector<size_t> outInds(k);
     std::vector<double> outDistSq(k);
     tree.knnSearch(&query[0], k, &outInds[0], &outDistSq[0]);
-- 
2.43.0


From 62901b58553c488144ad02da1a12aa86064f20ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 041/103] fix: intersections() of two meshes skipped pairs of
 faces that happen to use equal vertex indices

---
 src/surface/intersection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 90100ac..e98e11a 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -50,8 +50,9 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
         j++;
       }
 
-      // skip triangles that share vertices
-      if (!(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
+      // skip triangles that share vertices (of one and the same surface)
+      if (&geometry1 != &geometry2 ||
+          !(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
             u[2] == v[0] || u[2] == v[1] || u[2] == v[2])) {
 
         // get vertex locations
-- 
2.43.0


From 8157cd8da07aa88a9c99d7a22345c39fd0786ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 042/103] fix: triTriIntersection() returned uninitialized
 results, and intersections() reported segments of garbage for coplanar faces

---
 src/surface/intersection.cpp        | 1 +
 src/utilities/tri_tri_intersect.cpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index e98e11a..96a3876 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -69,6 +69,7 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
         // add to list of all intersections
         if (r.intersect) {
           intersections.hasIntersections = true;
+          if (r.coplanar) continue; // not along a segment
           intersections.points.push_back(r.xA);
           intersections.points.push_back(r.xB);
           intersections.edges.push_back({n, n + 1});
diff --git a/src/utilities/tri_tri_intersect.cpp b/src/utilities/tri_tri_intersect.cpp
index 231c9c9..11a4e44 100644
--- a/src/utilities/tri_tri_intersect.cpp
+++ b/src/utilities/tri_tri_intersect.cpp
@@ -716,8 +716,8 @@ namespace geometrycentral {
 TriTriIntersectionResult3D triTriIntersection(Vector3 pA, Vector3 pB, Vector3 pC, Vector3 qA, Vector3 qB, Vector3 qC) {
   double V0[3], V1[3], V2[3];
   double U0[3], U1[3], U2[3];
-  int coplanar;
-  double isectpt1[3], isectpt2[3];
+  int coplanar = 0;
+  double isectpt1[3] = {0., 0., 0.}, isectpt2[3] = {0., 0., 0.}; // (no segment unless they cross)
 
   for (int i = 0; i < 3; i++) {
     V0[i] = pA[i];
-- 
2.43.0


From 58092c51d9bdbc8b66b2b49ad6b22081cfd020d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 043/103] fix: intersections() wrote out of range when the
 second mesh has faces with more than three sides

---
 src/surface/intersection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 96a3876..2340279 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -39,6 +39,10 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
 
     for (Face g : mesh2.faces()) {
 
+      if (g.degree() != 3) {
+        throw std::logic_error("only triangle meshes are supported");
+      }
+
       // for self-intersections, check each pair only once
       // (otherwise we create redundant output segments)
       if (selfCheck && g.getIndex() >= f.getIndex()) continue;
-- 
2.43.0


From a76b679933ebd019587cee21a10e001b8a4210bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 044/103] fix: triTriIntersection() missed triangles with
 integer coordinates that touch in one point, due to rounding

---
 src/utilities/tri_tri_intersect.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utilities/tri_tri_intersect.cpp b/src/utilities/tri_tri_intersect.cpp
index 11a4e44..1173f0d 100644
--- a/src/utilities/tri_tri_intersect.cpp
+++ b/src/utilities/tri_tri_intersect.cpp
@@ -671,7 +671,8 @@ int tri_tri_intersect_with_isectline(double V0[3],double V1[3],double V2[3],
   SORT2(isect1[0],isect1[1],smallest1);
   SORT2(isect2[0],isect2[1],smallest2);
 
-  if(isect1[1]<isect2[0] || isect2[1]<isect1[0]) return 0;
+  /* compare the intervals without divisions, whose rounding separates triangles that just touch */
+  if(!NoDivTriTriIsect(V0,V1,V2,U0,U1,U2)) return 0;
 
   /* at this point, we know that the triangles intersect */
 
-- 
2.43.0


From 79f0a96382baf65ae67f04941f05804b245acccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 045/103] fix: marchingTriangles() left gaps where a level
 curve passes through a vertex, repeated segments along edges, and added empty
 ones

---
 src/surface/marching_triangles.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/surface/marching_triangles.cpp b/src/surface/marching_triangles.cpp
index 5436d8f..5b321a1 100644
--- a/src/surface/marching_triangles.cpp
+++ b/src/surface/marching_triangles.cpp
@@ -66,11 +66,13 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
   SurfaceMesh& mesh = *u.getMesh();
   std::vector<SurfacePoint> nodes;
   std::vector<std::array<size_t, 2>> edges;
+  EdgeData<char> edgeDone(mesh, false);
   for (Face f : mesh.faces()) {
     std::vector<SurfacePoint> hits;
     BarycentricVector gradient(f);
+    Edge levelEdge; // a side that is at the level as a whole
     for (Halfedge he : f.adjacentHalfedges()) {
-      // Record edge crossings
+      // Record crossings, at the corners and strictly inside the edges (so that no point is recorded more than once)
       Edge e = he.edge();
       Vertex v0 = e.firstVertex();
       Vertex v1 = e.secondVertex();
@@ -78,14 +80,13 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
       double u1 = u[v1];
       double lB = std::min(u0, u1);
       double uB = std::max(u0, u1);
-      if (lB == uB && lB == isoval) {
-        hits.clear();
-        hits = {SurfacePoint(v0), SurfacePoint(v1)};
-        break;
+      if (u[he.vertex()] == isoval) hits.emplace_back(he.vertex());
+      if (lB == isoval && uB == isoval) levelEdge = e;
+      if (lB < isoval && isoval < uB) {
+        double t = (isoval - lB) / (uB - lB);
+        if (u0 > u1) t = 1. - t;
+        hits.emplace_back(e, t);
       }
-      double t = (isoval - lB) / (uB - lB);
-      if (u0 > u1) t = 1. - t;
-      if (t <= 1. && t >= 0.) hits.emplace_back(e, t);
       // Compute gradient of the scalar function.
       BarycentricVector heVec(he.next(), f);
       BarycentricVector ePerp = heVec.rotate90(geom);
@@ -93,6 +94,12 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
     }
     if (hits.size() != 2) continue;
 
+    // A segment along an edge is found from both sides, keep one.
+    if (levelEdge != Edge()) {
+      if (edgeDone[levelEdge]) continue;
+      edgeDone[levelEdge] = true;
+    }
+
     // Orient segments so that smaller values are always on the "inside" of the curve.
     std::array<size_t, 2> seg;
     for (int i = 0; i < 2; i++) {
-- 
2.43.0


From 5ab98c0ab683f420d61a8e003293e9b084755e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 046/103] fix: marchingTriangles() threw or oriented segments
 in another face when two faces share two edges

---
 src/surface/marching_triangles.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/marching_triangles.cpp b/src/surface/marching_triangles.cpp
index 5b321a1..278fa72 100644
--- a/src/surface/marching_triangles.cpp
+++ b/src/surface/marching_triangles.cpp
@@ -111,8 +111,8 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
         seg[i] = nodes.size() - 1;
       }
     }
-    BarycentricVector segTangent(hits[0], hits[1]);
-    BarycentricVector segNormal = -segTangent.inFace(f).rotate90(geom);
+    BarycentricVector segTangent(f, hits[1].inFace(f).faceCoords - hits[0].inFace(f).faceCoords);
+    BarycentricVector segNormal = -segTangent.rotate90(geom);
     if (dot(geom, segNormal, gradient) > 0.) {
       edges.push_back(seg);
     } else {
-- 
2.43.0


From c31f88c5d5e4e4f889a84290211ed77a372f8777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 047/103] fix: cutAlongEdges() returned wrong parents for
 meshes that are not compressed

---
 src/surface/surgery.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/surgery.cpp b/src/surface/surgery.cpp
index 74a7020..43f7297 100644
--- a/src/surface/surgery.cpp
+++ b/src/surface/surgery.cpp
@@ -14,8 +14,8 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
   // Initialize parent references
   // The built-in dynamic container updates will automatically keep this container in sync as we modify the mesh
   HalfedgeData<Halfedge> parentHalfedges(*mesh, Halfedge());
-  for (size_t i = 0; i < mesh->nHalfedges(); i++) {
-    parentHalfedges[i] = origMesh.halfedge(i);
+  for (Halfedge he : mesh->halfedges()) { // (the copy has the same indices)
+    parentHalfedges[he] = origMesh.halfedge(he.getIndex());
   }
 
   // Transfer the cut data to the new mesh.
-- 
2.43.0


From b6ead7e8fbdaeb6c738be85061c882926e943003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 048/103] fix: cutAlongEdges() dropped the parents of exterior
 halfedges that are not along the cut, contrary to its documentation

---
 src/surface/surgery.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/surgery.cpp b/src/surface/surgery.cpp
index 43f7297..4f64552 100644
--- a/src/surface/surgery.cpp
+++ b/src/surface/surgery.cpp
@@ -92,9 +92,9 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
     }
   }
 
-  // Clear out any stale boundary parents
+  // Clear out any stale boundary parents (exterior halfedges which were there before keep theirs)
   for (Halfedge he : mesh->exteriorHalfedges()) {
-    parentHalfedges[he] = Halfedge();
+    if (parentHalfedges[he] != Halfedge() && parentHalfedges[he].isInterior()) parentHalfedges[he] = Halfedge();
   }
 
   return std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>>{std::move(mesh), parentHalfedges};
-- 
2.43.0


From 0e3539b4f4da630a8f8efc06dc1f681e855b4059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 049/103] fix: cutAlongEdges() left all but one tree of a
 forest uncut, and failed on trees that touch the boundary unless it happened
 to start there

---
 src/surface/surgery.cpp | 49 +++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/surface/surgery.cpp b/src/surface/surgery.cpp
index 4f64552..75da89d 100644
--- a/src/surface/surgery.cpp
+++ b/src/surface/surgery.cpp
@@ -38,24 +38,32 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
   std::queue<Edge> queue;
   EdgeData<char> considered(*mesh, false);
 
-  // find any leaf edge
-  Edge firstEdge;
-  for (Edge e : mesh->edges()) {
-    if (cut[e]) {
-      int topCount = 0;
-      for (Edge en : e.halfedge().vertex().adjacentEdges()) {
-        if (cut[en]) topCount++;
-      }
-      int botCount = 0;
-      for (Edge en : e.halfedge().twin().vertex().adjacentEdges()) {
-        if (cut[en]) botCount++;
-      }
-      if (topCount == 1 || botCount == 1) {
-        firstEdge = e;
-        break;
+  // find an edge to start from: one that meets the boundary if there is any, otherwise any leaf edge
+  auto findFirstEdge = [&]() {
+    Edge firstEdge;
+    bool remaining = false;
+    for (Edge e : mesh->edges()) {
+      if (cut[e] && !considered[e]) {
+        remaining = true;
+        if (e.halfedge().vertex().isBoundary() || e.halfedge().twin().vertex().isBoundary()) return e; // opens the boundary further
+        int topCount = 0;
+        for (Edge en : e.halfedge().vertex().adjacentEdges()) {
+          if (cut[en]) topCount++;
+        }
+        int botCount = 0;
+        for (Edge en : e.halfedge().twin().vertex().adjacentEdges()) {
+          if (cut[en]) botCount++;
+        }
+        if (firstEdge == Edge() && (topCount == 1 || botCount == 1)) {
+          firstEdge = e;
+        }
       }
     }
-  }
+    if (remaining && firstEdge == Edge())
+      throw std::runtime_error("could not find leaf edge. must cut along simple disk tree. see note");
+    return firstEdge;
+  };
+  Edge firstEdge = findFirstEdge();
   if (firstEdge == Edge())
     throw std::runtime_error("could not find leaf edge. must cut along simple disk tree. see note");
   queue.emplace(firstEdge);
@@ -90,6 +98,15 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
         queue.emplace(en);
       }
     }
+
+    // Go on with the next tree
+    if (queue.empty()) {
+      Edge nextTree = findFirstEdge();
+      if (nextTree != Edge()) {
+        considered[nextTree] = true;
+        queue.emplace(nextTree);
+      }
+    }
   }
 
   // Clear out any stale boundary parents (exterior halfedges which were there before keep theirs)
-- 
2.43.0


From 162bf5ffd9e8edd03254aa55642c3c800e7d1c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 050/103] fix: SimplePolygonMesh::triangulate() left the
 texture coordinates of the polygons, now out of step with the triangles

---
 src/surface/simple_polygon_mesh.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 111b7eb..b758747 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -634,8 +634,10 @@ void SimplePolygonMesh::stripDuplicateFaces() {
 
 void SimplePolygonMesh::triangulate() {
   std::vector<std::vector<size_t>> newPolygons;
+  std::vector<std::vector<Vector2>> newParamCoordinates;
 
-  for (auto poly : polygons) {
+  for (size_t iF = 0; iF < nFaces(); iF++) {
+    const std::vector<size_t>& poly = polygons[iF];
     if (poly.size() <= 2) {
       throw std::runtime_error("ERROR: SimplePolygonMesh has degree < 3 polygon");
     }
@@ -643,10 +645,15 @@ void SimplePolygonMesh::triangulate() {
     for (size_t i = 2; i < poly.size(); i++) {
       std::vector<size_t> tri = {poly[0], poly[i - 1], poly[i]};
       newPolygons.push_back(tri);
+      if (hasParameterization()) {
+        const std::vector<Vector2>& coords = paramCoordinates[iF];
+        newParamCoordinates.push_back({coords[0], coords[i - 1], coords[i]});
+      }
     }
   }
 
   polygons = newPolygons;
+  paramCoordinates = newParamCoordinates;
 }
 
 void SimplePolygonMesh::consistentlyOrientFaces(bool outwardOrient) {
-- 
2.43.0


From 0fc9831f1748a33894bc30d747e7c6e3bc8c2aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 051/103] fix: stripDuplicateFaces() also reordered all the
 other faces

---
 src/surface/simple_polygon_mesh.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index b758747..ef428cf 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -604,21 +604,22 @@ void SimplePolygonMesh::stripDuplicateFaces() {
     std::sort(sortpolys[iF].inds.begin(), sortpolys[iF].inds.end());
   }
 
-  // Sort the overall list lexicographically
-  std::sort(sortpolys.begin(), sortpolys.end(), [](const IndPoly& a, const IndPoly& b) { return a.inds < b.inds; });
+  // Sort the overall list lexicographically (and by original index among identical ones)
+  std::sort(sortpolys.begin(), sortpolys.end(), [](const IndPoly& a, const IndPoly& b) {
+    if (a.inds != b.inds) return a.inds < b.inds;
+    return a.orig_iF < b.orig_iF;
+  });
 
 
   // Keep only the first entry from each run of sorted ones
+  std::vector<char> keepFace(nFaces(), false);
   std::vector<std::vector<size_t>> newPolygons;
   std::vector<std::vector<Vector2>> newParamCoordinates;
   for (size_t iF = 0; iF < nFaces(); /* pass */) {
 
     // for the first instance of this vertex set, keep it
     size_t keep_iF = sortpolys[iF].orig_iF;
-    newPolygons.push_back(polygons[keep_iF]);
-    if (hasParameterization()) {
-      newParamCoordinates.push_back(paramCoordinates[keep_iF]);
-    }
+    keepFace[keep_iF] = true;
 
     // for any subsequent entries, mark them for removal
     size_t start_iF = iF;
@@ -628,6 +629,15 @@ void SimplePolygonMesh::stripDuplicateFaces() {
     }
   }
 
+  // Build the new list, in the original order
+  for (size_t iF = 0; iF < nFaces(); iF++) {
+    if (!keepFace[iF]) continue;
+    newPolygons.push_back(polygons[iF]);
+    if (hasParameterization()) {
+      newParamCoordinates.push_back(paramCoordinates[iF]);
+    }
+  }
+
   polygons = newPolygons;
   paramCoordinates = newParamCoordinates;
 }
-- 
2.43.0


From bdcc9277338a2b161628d614f5e05800a568bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 052/103] fix: OBJ faces without texture indices got the first
 texture coordinate, or an empty parameterization

---
 src/surface/simple_polygon_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index ef428cf..585fe3e 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -80,10 +80,10 @@ public:
 Index parseFaceIndex(const std::string& token) {
   std::stringstream in(token);
   std::string indexString;
-  int indices[3] = {1, 1, 1};
+  int indices[3] = {0, 0, 0}; // OBJ indices are 1-based, 0 means not given
 
   int i = 0;
-  while (std::getline(in, indexString, '/')) {
+  while (i < 3 && std::getline(in, indexString, '/')) {
     if (indexString != "\\") {
       std::stringstream ss(indexString);
       ss >> indices[i++];
-- 
2.43.0


From 57e811c387c469a72cebfdaa6cde7c555205c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 053/103] fix: negative (relative) indices and continued lines
 in OBJ files were misread

---
 src/surface/simple_polygon_mesh.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 585fe3e..689d3df 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -77,19 +77,21 @@ public:
   long long int normal = -1;
 };
 
-Index parseFaceIndex(const std::string& token) {
+Index parseFaceIndex(const std::string& token, size_t nPosition, size_t nUV) {
   std::stringstream in(token);
   std::string indexString;
   int indices[3] = {0, 0, 0}; // OBJ indices are 1-based, 0 means not given
 
   int i = 0;
   while (i < 3 && std::getline(in, indexString, '/')) {
-    if (indexString != "\\") {
-      std::stringstream ss(indexString);
-      ss >> indices[i++];
-    }
+    std::stringstream ss(indexString);
+    ss >> indices[i++];
   }
 
+  // negative indices count back from the most recent entry
+  if (indices[0] < 0) indices[0] += (int)nPosition + 1;
+  if (indices[1] < 0) indices[1] += (int)nUV + 1;
+
   // decrement since indices in OBJ files are 1-based
   return Index(indices[0] - 1, indices[1] - 1, indices[2] - 1);
 }
@@ -174,6 +176,13 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
   // parse obj format
   std::string line;
   while (getline(in, line)) {
+    // a backslash at the end of a line continues it on the next one
+    for (size_t i; line[0] != '#' && (i = line.find_last_not_of("\r")) != std::string::npos && line[i] == '\\';) {
+      std::string nextLine;
+      getline(in, nextLine);
+      line = line.substr(0, i) + " " + nextLine;
+    }
+
     std::stringstream ss(line);
     std::string token;
 
@@ -198,12 +207,7 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
       std::vector<size_t> face;
       std::vector<size_t> faceCoordInds;
       while (ss >> token) {
-        Index index = parseFaceIndex(token);
-        if (index.position < 0) {
-          getline(in, line);
-          size_t i = line.find_first_not_of("\t\n\v\f\r ");
-          index = parseFaceIndex(line.substr(i));
-        }
+        Index index = parseFaceIndex(token, vertexCoordinates.size(), coords.size());
 
         face.push_back(index.position);
 
-- 
2.43.0


From cc234efc2eccefb6807639a53aaac98777402bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 054/103] fix: malformed lines in OBJ files were read as
 arbitrary data rather than reported

---
 src/surface/simple_polygon_mesh.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 689d3df..2e15674 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -85,7 +85,10 @@ Index parseFaceIndex(const std::string& token, size_t nPosition, size_t nUV) {
   int i = 0;
   while (i < 3 && std::getline(in, indexString, '/')) {
     std::stringstream ss(indexString);
-    ss >> indices[i++];
+    if (!(ss >> indices[i]) && (i == 0 || !indexString.empty())) {
+      throw std::runtime_error("failed to parse OBJ face index " + token);
+    }
+    i++;
   }
 
   // negative indices count back from the most recent entry
@@ -190,13 +193,14 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
 
     if (token == "v") {
       Vector3 position;
-      ss >> position;
+      if (!(ss >> position)) throw std::runtime_error("failed to parse OBJ vertex line: " + line);
 
       vertexCoordinates.push_back(position);
 
     } else if (token == "vt") {
-      double u, v;
-      ss >> u >> v;
+      double u, v = 0.; // the second coordinate is optional
+      if (!(ss >> u)) throw std::runtime_error("failed to parse OBJ texture coordinate line: " + line);
+      ss >> v;
 
       coords.push_back(Vector2{u, v});
 
@@ -229,7 +233,8 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
       paramCoordinates.emplace_back();
       std::vector<Vector2>& faceCoord = paramCoordinates.back();
       for (size_t i : faceCoordInd) {
-        if (i < coords.size()) faceCoord.push_back(coords[i]);
+        if (i >= coords.size()) throw std::runtime_error("OBJ face uses a texture coordinate which does not exist");
+        faceCoord.push_back(coords[i]);
       }
     }
   }
-- 
2.43.0


From 89dc8b6172e2d60d7e240ebdd97e75fe8319d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 055/103] fix: OFF files with the counts in the header line,
 indented comments, or blank lines of spaces were misread

---
 src/surface/simple_polygon_mesh.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 2e15674..41b53fd 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -389,17 +389,20 @@ void SimplePolygonMesh::readMeshFromOffFile(std::istream& in) {
       if (!std::getline(in, line)) {
         throw std::runtime_error("ran out of lines while parsing off file");
       }
-    } while (line.size() == 0 || line[0] == '#');
+      line = line.substr(0, line.find('#')); // strip comments
+    } while (line.find_first_not_of(" \t\r\v\f") == std::string::npos);
     return line;
   };
 
   // header
   std::string headerLine = getNextLine();
   if (headerLine.rfind("OFF", 0) != 0) throw std::runtime_error("does not seem to be valid OFF file");
+  headerLine = headerLine.substr(3);
 
   // counts
   size_t nVert, nFace;
-  std::string countLine = getNextLine();
+  bool countsInHeader = headerLine.find_first_not_of(" \t\r\v\f") != std::string::npos;
+  std::string countLine = countsInHeader ? headerLine : getNextLine();
   std::stringstream countStream(countLine);
   countStream >> nVert >> nFace; // ignore nEdges, if present
 
-- 
2.43.0


From 40737a240ca94fa4ade81b7617bfdb359535f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 056/103] fix: malformed lines in OFF files were read as zeros
 rather than reported

---
 src/surface/simple_polygon_mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 41b53fd..231e33f 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -405,6 +405,7 @@ void SimplePolygonMesh::readMeshFromOffFile(std::istream& in) {
   std::string countLine = countsInHeader ? headerLine : getNextLine();
   std::stringstream countStream(countLine);
   countStream >> nVert >> nFace; // ignore nEdges, if present
+  if (!countStream) throw std::runtime_error("failed to parse off counts line: " + countLine);
 
   // parse vertices
   vertexCoordinates.resize(nVert);
@@ -413,6 +414,7 @@ void SimplePolygonMesh::readMeshFromOffFile(std::istream& in) {
     std::stringstream vertStream(vertLine);
     Vector3 p;
     vertStream >> p.x >> p.y >> p.z; // ignore color etc, if present
+    if (!vertStream) throw std::runtime_error("failed to parse off vertex line: " + vertLine);
     vertexCoordinates[iV] = p;
   }
 
@@ -424,10 +426,12 @@ void SimplePolygonMesh::readMeshFromOffFile(std::istream& in) {
 
     size_t degree;
     faceStream >> degree;
+    if (!faceStream) throw std::runtime_error("failed to parse off face line: " + faceLine);
     std::vector<size_t>& face = polygons[iF];
     for (size_t i = 0; i < degree; i++) {
       size_t ind;
       faceStream >> ind;
+      if (!faceStream) throw std::runtime_error("failed to parse off face line: " + faceLine);
       face.push_back(ind);
     }
   }
-- 
2.43.0


From b873da04fa2461d7458863be58cd44c572c71f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 057/103] fix: blank lines in ASCII STL files were taken for
 errors

---
 src/surface/simple_polygon_mesh.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 231e33f..59867a6 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -262,9 +262,11 @@ void SimplePolygonMesh::readMeshFromAsciiStlFile(std::istream& in) {
   };
 
   auto nextLine = [&]() {
-    if (!getline(in, line)) {
-      return false;
-    }
+    do {
+      if (!getline(in, line)) {
+        return false;
+      }
+    } while (line.find_first_not_of(" \t\r\v\f") == std::string::npos); // skip blank lines
 
     ss = std::stringstream(line);
     lineNum++;
-- 
2.43.0


From bfb86ede90b40b28ec7ee007a55643c5f1ab3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 058/103] fix: WavefrontOBJ::write() with texture coordinates
 and normals left out the texture coordinates

---
 src/surface/meshio.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/meshio.cpp b/src/surface/meshio.cpp
index f1ff8f8..88fe611 100644
--- a/src/surface/meshio.cpp
+++ b/src/surface/meshio.cpp
@@ -238,6 +238,7 @@ bool WavefrontOBJ::write(std::string filename, EmbeddedGeometryInterface& geomet
   cout << endl;
 
   writeVertices(out, geometry);
+  writeTexCoords(out, geometry, texCoords);
   writeNormals(out, geometry, normals);
 
   bool useTexCoords = true;
-- 
2.43.0


From 9efd544cf77b94121100e3abf82e95a4f4736a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 059/103] fix: malformed or truncated STL files read out of
 range or gave arbitrary triangles rather than an error

---
 src/surface/simple_polygon_mesh.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 59867a6..b45625e 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -288,7 +288,7 @@ void SimplePolygonMesh::readMeshFromAsciiStlFile(std::istream& in) {
 
     // TODO: store this normal?
     Vector3 normal;
-    ss >> normal;
+    if (!(ss >> normal)) throw std::runtime_error("Failed to parse ASCII stl file. Bad normal: " + line);
 
     nextLine();
 
@@ -300,11 +300,12 @@ void SimplePolygonMesh::readMeshFromAsciiStlFile(std::istream& in) {
       assertToken("vertex");
 
       Vector3 position;
-      ss >> position;
+      if (!(ss >> position)) throw std::runtime_error("Failed to parse ASCII stl file. Bad vertex: " + line);
       vertexCoordinates.push_back(position);
 
       face.push_back(vertexCoordinates.size() - 1);
     }
+    if (face.size() < 3) throw std::runtime_error("Failed to parse ASCII stl file. Facet with less than 3 vertices");
 
     nextLine();
     assertToken("endfacet");
@@ -335,6 +336,7 @@ void SimplePolygonMesh::readMeshFromBinaryStlFile(std::istream& in) {
   in.read(header, 80);
   in.read(nTriangleChars, 4);
   unsigned int* intPtr = (unsigned int*)nTriangleChars;
+  if (!in) throw std::runtime_error("Failed to parse binary stl file. Incomplete header");
   size_t nTriangles = *intPtr;
 
   for (size_t iT = 0; iT < nTriangles; ++iT) {
@@ -355,6 +357,7 @@ void SimplePolygonMesh::readMeshFromBinaryStlFile(std::istream& in) {
     polygons.push_back(face);
     char dummy[2];
     in.read(dummy, 2);
+    if (!in) throw std::runtime_error("Failed to parse binary stl file. Incomplete triangle list");
   }
 }
 
-- 
2.43.0


From 726f54378fa6392494fb7e68a1a8561479bab37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 060/103] fix: OBJ texture indices counting back beyond the
 first entry were ignored

---
 src/surface/simple_polygon_mesh.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index b45625e..0243948 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -93,7 +93,10 @@ Index parseFaceIndex(const std::string& token, size_t nPosition, size_t nUV) {
 
   // negative indices count back from the most recent entry
   if (indices[0] < 0) indices[0] += (int)nPosition + 1;
-  if (indices[1] < 0) indices[1] += (int)nUV + 1;
+  if (indices[1] < 0) {
+    indices[1] += (int)nUV + 1;
+    if (indices[1] <= 0) throw std::runtime_error("OBJ face uses a texture coordinate which does not exist");
+  }
 
   // decrement since indices in OBJ files are 1-based
   return Index(indices[0] - 1, indices[1] - 1, indices[2] - 1);
-- 
2.43.0


From 491bb4b2551bf888af53e4cc6a335a83a4e0a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 061/103] fix: removeInsertedVertex() crashed when the mesh
 could not remove the vertex because its ring meets itself

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 1 +
 src/surface/signpost_intrinsic_triangulation.cpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 6902916..3c35572 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1670,6 +1670,7 @@ Face IntegerCoordinatesIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 
   // ==== Remove the vertex
   Face newF = intrinsicMesh->removeVertex(v);
+  if (newF == Face()) return Face(); // the ring around the vertex is not simple
 
   // ==== Update cached data
   // Edge lengths, normal coordinates, and roundabouts should be okay
diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 9ab4aee..5188ad1 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -572,6 +572,7 @@ Face SignpostIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 
   // Remove the vertex
   Face newF = intrinsicMesh->removeVertex(v);
+  if (newF == Face()) return Face(); // the ring around the vertex is not simple
   updateFaceBasis(newF);
   triangulationChanged();
   return newF;
-- 
2.43.0


From fafb1f497ea9a9772a1b1b975562eb7183516c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 062/103] fix:
 IntegerCoordinatesIntrinsicTriangulation::splitEdge() failed on the outer
 halfedge of a boundary edge

---
 .../integer_coordinates_intrinsic_triangulation.cpp       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 3c35572..00dc3c8 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1245,6 +1245,12 @@ Vertex IntegerCoordinatesIntrinsicTriangulation::splitEdge(Edge e, double bary,
 }
 
 Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he, double bary, bool verbose) {
+  // work along the interior halfedge
+  bool alongExterior = !he.isInterior();
+  if (alongExterior) {
+    he = he.twin();
+    bary = 1 - bary;
+  }
   Edge e = he.edge();
 
   auto heBary = [&](Halfedge he, double t) -> Vector3 {
@@ -1413,7 +1419,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he
       invokeEdgeSplitCallbacks(e, otherNewHalfedge, newHalfedge);
     }
 
-    return newHalfedge;
+    return alongExterior ? otherNewHalfedge : newHalfedge;
   }
 }
 
-- 
2.43.0


From 42ee5dc8807f5e95bc4baca75d005716c28b4d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 063/103] fix:
 IntegerCoordinatesIntrinsicTriangulation::splitEdge() of a halfedge other
 than edge.halfedge() returned the half that points the other way

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 00dc3c8..2dcd093 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1500,6 +1500,8 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitInteriorEdge(Halfedge he
 
   std::array<bool, 4> newEdgeFixed{false, isFixed(e), false, isFixed(e)};
 
+  bool forward = (he == e.halfedge());
+
   // "edge 2"
   Halfedge newHalfedge = intrinsicMesh->splitEdgeTriangular(e); // TODO: use mutation Manager
   Vertex newVertex = newHalfedge.vertex();
@@ -1567,7 +1569,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitInteriorEdge(Halfedge he
   triangulationChanged();
 
   Halfedge otherNewHalfedge = newHalfedge.next().next().twin().next().next().twin();
-  if (e == he.edge()) {
+  if (forward) {
     invokeEdgeSplitCallbacks(e, newHalfedge, otherNewHalfedge);
     return newHalfedge;
   } else {
-- 
2.43.0


From d397ae25ab5127bf1954ad1ce783d779cbc13fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 064/103] fix: tracing an input edge past a vertex inserted on
 it failed unless the first corner there held the next piece of the edge

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 2dcd093..2bdd45f 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1911,10 +1911,6 @@ IntegerCoordinatesIntrinsicTriangulation::traceNextCurve(const NormalCoordinates
           GC_SAFETY_ASSERT(c == incomingCorner, "there can only be one");
 
           return {true, normalCoordinates.topologicalTrace(c.halfedge().next(), finalPos)};
-
-        } else {
-          throw std::runtime_error("this shouldn't be possible");
-          return {false, NormalCoordinatesCurve{}};
         }
       }
     } else {
-- 
2.43.0


From 49ab8883fd9b312702def4d7d330a1bcbf0e8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 065/103] fix: identifyInputEdge() failed for a piece of an
 input edge that starts at a vertex inserted on the edge, so faces and edges
 crossed by such a piece could not be split

---
 ...er_coordinates_intrinsic_triangulation.cpp | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 2bdd45f..7aa0d0a 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1938,9 +1938,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
   if (path.crossings[0].first < 0) {
     // If edge is shared, use roundabouts to identify shared edge
 
-    Halfedge he = path.crossings[0].second;
-    Vertex inputSrc = vertexLocations[he.vertex()].vertex;
-    return vertexHalfedge(inputSrc, normalCoordinates.roundabouts[he]);
+    return identifyInputEdge(path.crossings[0].second);
   } else {
     Halfedge he = path.crossings[0].second;
     int p = path.crossings[0].first - normalCoordinates.strictCornerCoord(he.corner());
@@ -1952,7 +1950,22 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
     GC_SAFETY_ASSERT(p >= 0, "crossing must have nonnegative index");
 
     SurfacePoint src = vertexLocations[he.next().next().vertex()];
-    GC_SAFETY_ASSERT(src.type == SurfacePointType::Vertex, "edge must start at vertex");
+    if (src.type == SurfacePointType::Edge) {
+      // The path starts at a vertex inserted along the input edge, so look at where it ends
+      Halfedge heEnd = path.crossings.back().second.twin();
+      SurfacePoint dst = vertexLocations[heEnd.next().next().vertex()];
+      if (dst.type == SurfacePointType::Edge) {
+        return (src.tEdge < dst.tEdge) ? src.edge.halfedge() : src.edge.halfedge().twin();
+      }
+      NormalCoordinatesCurve reversedPath;
+      for (size_t i = path.crossings.size(); i > 0; i--) {
+        Halfedge heCross = path.crossings[i - 1].second;
+        reversedPath.crossings.push_back(
+            std::make_pair(normalCoordinates[heCross.edge()] - path.crossings[i - 1].first - 1, heCross.twin()));
+      }
+      return identifyInputEdge(reversedPath, verbose).twin();
+    }
+    GC_SAFETY_ASSERT(src.type == SurfacePointType::Vertex, "edge must start along an input edge or at its end");
     Vertex inputSrc = src.vertex;
 
     Halfedge hePrev = he.next().next();
@@ -1977,8 +1990,16 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(Halfedge he
     return he;
   };
 
-  Vertex src = vertexLocations[he.vertex()].vertex;
-  return vertexHalfedge(src, normalCoordinates.roundabouts[he]);
+  SurfacePoint src = vertexLocations[he.vertex()];
+  if (src.type == SurfacePointType::Edge) {
+    // The halfedge starts at a vertex inserted along the input edge, so look at where it ends
+    SurfacePoint dst = vertexLocations[he.tipVertex()];
+    if (dst.type == SurfacePointType::Edge) {
+      return (src.tEdge < dst.tEdge) ? src.edge.halfedge() : src.edge.halfedge().twin();
+    }
+    return identifyInputEdge(he.twin()).twin();
+  }
+  return vertexHalfedge(src.vertex, normalCoordinates.roundabouts[he]);
 }
 
 std::array<Vector2, 3> IntegerCoordinatesIntrinsicTriangulation::vertexCoordinatesInFace(Face face) const {
-- 
2.43.0


From 47e319cf1adec7487e798fa9073f9ab249626f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 066/103] fix: the place on the input mesh of an edge or face
 split, and of a crossing in the common subdivision, was wrong when a crossing
 input edge carried inserted vertices, because positions along its pieces were
 taken for positions along the whole edge

---
 ...eger_coordinates_intrinsic_triangulation.h |  4 +++
 ...er_coordinates_intrinsic_triangulation.cpp | 31 ++++++++++++++-----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
index de85c49..7173c0a 100644
--- a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
+++ b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
@@ -127,6 +127,10 @@ public:
   // (i.e. edgeCoords[he.edge()] must be negative)
   Halfedge identifyInputEdge(Halfedge he) const;
 
+  // The point a fraction t along the piece of an input edge which goes from vertex src to vertex dst (of the intrinsic
+  // mesh) in the direction of inputHe
+  SurfacePoint pointAlongInputHalfedge(Halfedge inputHe, Vertex src, Vertex dst, double t) const;
+
   std::array<Vector2, 3> vertexCoordinatesInFace(Face face) const;
 
   void setFixedEdges(const EdgeData<bool>& fixedEdges);
diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 7aa0d0a..21a2db7 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -295,8 +295,11 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
           int iB = std::get<0>(path[iC]);
           if (!positiveOrientation) iB = positivePart(normalCoordinates[eB]) - iB - 1;
 
-          cs.subdivisionPoints.push_back(CommonSubdivisionPoint{CSIntersectionType::EDGE_TRANSVERSE,
-                                                                SurfacePoint(eA, tA), ptB, positiveOrientation});
+          SurfacePoint ptA = pointAlongInputHalfedge(eA.halfedge(), geodesicPath.front().first.vertex,
+                                                     geodesicPath.back().first.vertex, tA);
+
+          cs.subdivisionPoints.push_back(
+              CommonSubdivisionPoint{CSIntersectionType::EDGE_TRANSVERSE, ptA, ptB, positiveOrientation});
 
           CommonSubdivisionPoint* crPt = &cs.subdivisionPoints[cs.subdivisionPoints.size() - 1];
 
@@ -767,9 +770,11 @@ IntegerCoordinatesIntrinsicTriangulation::computeFaceSplitData(Face f, Vector3 b
       } else {
         // intermediate crossing
         double tInput = transverseCrossingTimes[heIndex(he)][pos - 1];
+        const std::vector<std::pair<SurfacePoint, double>>& geodesic = geodesics[heIndex(he)][pos - 1];
         Halfedge heInput = identifyInputEdge(curves[heIndex(he)][pos - 1]);
         double tIntrinsic = boundaryCrossings[heIndex(he)][pos - 1];
-        return {heBary(he, tIntrinsic), SurfacePoint(heInput, tInput)};
+        return {heBary(he, tIntrinsic), pointAlongInputHalfedge(heInput, geodesic.front().first.vertex,
+                                                                geodesic.back().first.vertex, tInput)};
       }
     };
 
@@ -1084,14 +1089,17 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       }
     }
 
+    auto crossingOnInput = [&](int iSeg) -> SurfacePoint {
+      return pointAlongInputHalfedge(identifyInputEdge(curves[iSeg]), geodesics[iSeg].front().first.vertex,
+                                     geodesics[iSeg].back().first.vertex, transverseCrossingTimes[iSeg]);
+    };
     SurfacePoint segmentTail, segmentTip;
     double tSegmentTail, tSegmentTip;
     if (crossingSegment == 0) {
       segmentTail = vertexLocations[he.tailVertex()];
       tSegmentTail = 0;
     } else {
-      Halfedge tailHedge = identifyInputEdge(curves[crossingSegment - 1]);
-      segmentTail = SurfacePoint(tailHedge, transverseCrossingTimes[crossingSegment - 1]);
+      segmentTail = crossingOnInput(crossingSegment - 1);
       tSegmentTail = heCrossingTimes[crossingSegment - 1];
     }
 
@@ -1099,8 +1107,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       segmentTip = vertexLocations[he.tipVertex()];
       tSegmentTip = 1;
     } else {
-      Halfedge tipHedge = identifyInputEdge(curves[crossingSegment]);
-      segmentTip = SurfacePoint(tipHedge, transverseCrossingTimes[crossingSegment]);
+      segmentTip = crossingOnInput(crossingSegment);
       tSegmentTip = heCrossingTimes[crossingSegment];
     }
 
@@ -2002,6 +2009,16 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(Halfedge he
   return vertexHalfedge(src.vertex, normalCoordinates.roundabouts[he]);
 }
 
+SurfacePoint IntegerCoordinatesIntrinsicTriangulation::pointAlongInputHalfedge(Halfedge inputHe, Vertex src, Vertex dst,
+                                                                               double t) const {
+  auto position = [&](Vertex v, double tAtVertex) -> double {
+    const SurfacePoint& p = vertexLocations[v];
+    if (p.type != SurfacePointType::Edge) return tAtVertex; // an end of the input edge
+    return (inputHe == p.edge.halfedge()) ? p.tEdge : 1. - p.tEdge;
+  };
+  return SurfacePoint(inputHe, (1. - t) * position(src, 0.) + t * position(dst, 1.));
+}
+
 std::array<Vector2, 3> IntegerCoordinatesIntrinsicTriangulation::vertexCoordinatesInFace(Face face) const {
   // stolen from
   // gc/intrinsic_geometry_interface.cpp:computeHalfedgeVectorsInFace
-- 
2.43.0


From 334ef4f4382540a86cc20132456c857e71174a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 067/103] fix: the common subdivision listed the wrong end
 point on an input edge where a piece shared with the intrinsic mesh runs
 against the direction of the intrinsic edge

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 21a2db7..1babc90 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -267,7 +267,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
 
         if (first) cs.pointsAlongA[eA].push_back(aVtx[src(eA)]);
         cs.pointsAlongA[eA].push_back(crPt);
-        cs.pointsAlongA[eA].push_back(bVtx[dst(eB)]);
+        cs.pointsAlongA[eA].push_back(bVtx[heB.tipVertex()]);
 
         cs.pointsAlongB[eB][1] = crPt;
       } else {
-- 
2.43.0


From 3d21fed0e9a1ce722b6c755c4764be58e45f392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 068/103] fix: integer-coordinate splitFace() left quantities
 and the common subdivision from before the insertion in place

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 1babc90..b0705ff 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1237,6 +1237,7 @@ Vertex IntegerCoordinatesIntrinsicTriangulation::splitFace(Face f, Vector3 bary,
   vertexAngleSums[newVertex] = 2 * M_PI;
   updateHalfedgeVectorsInVertex(newVertex);
 
+  triangulationChanged();
   invokeFaceInsertionCallbacks(f, newVertex);
 
   return newVertex;
-- 
2.43.0


From 889161746145d13557a44e795248f006a1bffe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 069/103] fix: a vertex inserted on the boundary was given the
 angle sum of an interior vertex (integer coordinates)

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index b0705ff..8744a43 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1415,7 +1415,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he
       updateHalfedgeVectorsInVertex(v);
     }
 
-    vertexAngleSums[newVertex] = 2 * M_PI;
+    vertexAngleSums[newVertex] = M_PI;
     updateHalfedgeVectorsInVertex(newVertex);
 
     triangulationChanged();
-- 
2.43.0


From f42f3b22848c0a674f0268b3d599977a181323aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 070/103] fix: checkFlip() reported edges that cannot be
 flipped as the best edges to flip, so that removing an inserted vertex gave
 up

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 8744a43..28d294f 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -512,7 +512,7 @@ bool IntegerCoordinatesIntrinsicTriangulation::flipEdgeIfPossible(Edge e) {
 
 double IntegerCoordinatesIntrinsicTriangulation::checkFlip(Edge e) {
   // Can't flip
-  if (isFixed(e)) return std::numeric_limits<double>::infinity();
+  if (isFixed(e)) return -std::numeric_limits<double>::infinity();
 
   // Check topologically flippable
   {
@@ -525,7 +525,7 @@ double IntegerCoordinatesIntrinsicTriangulation::checkFlip(Edge e) {
 
     // incident on degree 1 vertex
     if (ha2 == hb1 || hb2 == ha1) {
-      return std::numeric_limits<double>::infinity();
+      return -std::numeric_limits<double>::infinity();
     }
   }
 
-- 
2.43.0


From b0a318cd0be4af5df34abf1c7391495bd1f6b0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 071/103] fix: splitting a shared edge whose input edge is a
 loop (both ends at one vertex) put the new vertex at a wrong place on the
 input edge

---
 ...er_coordinates_intrinsic_triangulation.cpp | 65 ++-----------------
 1 file changed, 4 insertions(+), 61 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 28d294f..ecc1d80 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1123,22 +1123,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
   } else if (normalCoordinates[he.edge()] < 0) {
     // If this is a shared edge, return a point on the shared edge
 
-    SurfacePoint tail = vertexLocations[he.tailVertex()];
-    SurfacePoint tip = vertexLocations[he.tipVertex()];
-
-    Edge inputEdge;
-    if (tail.type == SurfacePointType::Edge) {
-      inputEdge = tail.edge;
-    } else if (tip.type == SurfacePointType::Edge) {
-      inputEdge = tip.edge;
-    } else {
-      inputEdge = getSharedInputEdge(he).edge();
-    }
-
-    double tTail = tail.inEdge(inputEdge).tEdge;
-    double tTip = tip.inEdge(inputEdge).tEdge;
-
-    return std::make_pair(SurfacePoint(inputEdge, (1 - tBary) * tTail + tBary * tTip), 0);
+    return std::make_pair(pointAlongInputHalfedge(identifyInputEdge(he), he.tailVertex(), he.tipVertex(), tBary), 0);
   } else {
     // The normal coordinate must be 0, meaning both endpoints are contained in a common face of the input mesh
 
@@ -1336,24 +1321,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he
   } else {
     if (verbose) std::cout << "Shared Edge Split" << std::endl;
     // Hard case - edge also exists in input mesh
-    Edge inputEdge;
-    SurfacePoint src = vertexLocations[he.tailVertex()];
-    SurfacePoint dst = vertexLocations[he.tipVertex()];
-
-    if (src.type == SurfacePointType::Edge) {
-      inputEdge = src.edge;
-    } else if (dst.type == SurfacePointType::Edge) {
-      inputEdge = dst.edge;
-    } else {
-      inputEdge = getSharedInputEdge(he).edge();
-    }
-
-    double tSrc = src.inEdge(inputEdge).tEdge;
-    double tDst = dst.inEdge(inputEdge).tEdge;
-
-    double tInsertion = (1 - bary) * tSrc + bary * tDst;
-
-    SurfacePoint inputPoint(inputEdge, tInsertion);
+    SurfacePoint inputPoint = computeEdgeSplitData(he, bary).first;
 
     std::array<int, 3> newNormalCoordinates = normalCoordinates.computeBoundaryEdgeSplitDataGeodesic(*this, e, bary);
 
@@ -1457,37 +1425,12 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitInteriorEdge(Halfedge he
 
   SurfacePoint inputPoint;
   size_t iSeg = 0;
-  if (normalCoordinates[e] >= 0) {
-    if (verbose) std::cout << "     first" << std::endl;
-    // inputPoint = equivalentPointOnInput(SurfacePoint(he, bary));
-    std::tie(inputPoint, iSeg) = computeEdgeSplitData(he, bary);
-  } else {
-    if (verbose) std::cout << "     2nd" << std::endl;
-    Edge inputEdge;
-    SurfacePoint src = vertexLocations[he.tailVertex()];
-    SurfacePoint dst = vertexLocations[he.tipVertex()];
-
-    if (src.type == SurfacePointType::Edge) {
-      inputEdge = src.edge;
-    } else if (dst.type == SurfacePointType::Edge) {
-      inputEdge = dst.edge;
-    } else {
-      inputEdge = getSharedInputEdge(he).edge();
-    }
-
-    double tSrc = src.inEdge(inputEdge).tEdge;
-    double tDst = dst.inEdge(inputEdge).tEdge;
-
-    double tInsertion = (1 - bary) * tSrc + bary * tDst;
-
-    inputPoint = SurfacePoint(inputEdge, tInsertion);
-    iSeg = 0;
-  }
+  std::tie(inputPoint, iSeg) = computeEdgeSplitData(he, bary);
 
   // fix orientation
   if (he != e.halfedge()) {
     bary = 1 - bary;
-    iSeg = normalCoordinates[e] - iSeg;
+    iSeg = positivePart(normalCoordinates[e]) - iSeg;
   }
 
   if (verbose) std::cout << "  inputPoint: " << inputPoint << "\tiSeg: " << iSeg << std::endl;
-- 
2.43.0


From b4ae5b2dd3d73265432736c2b5573e17e45715bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 072/103] fix: signpost splitEdge() of a halfedge other than
 edge.halfedge() returned the half that points the other way

---
 src/surface/flip_geodesics.cpp                   | 4 +++-
 src/surface/signpost_intrinsic_triangulation.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index a9abbcb..e4a6810 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -1730,7 +1730,9 @@ void FlipPathSegment::splitEdge(double tSplit) {
   std::tie(he, prevID, nextID) = path->pathHeInfo[id];
   Halfedge origHe = he;
 
-  Halfedge newHeFront = path->network.tri->splitEdge(he, tSplit);
+  // updatePathAfterEdgeSplit() takes the new halfedge which points in the direction of edge.halfedge()
+  Halfedge canonHe = he.edge().halfedge();
+  Halfedge newHeFront = path->network.tri->splitEdge(canonHe, (he == canonHe) ? tSplit : 1. - tSplit);
   path->network.updatePathAfterEdgeSplit(origHe, newHeFront);
 }
 
diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 5188ad1..1b2532a 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -579,7 +579,9 @@ Face SignpostIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 }
 
 Halfedge SignpostIntrinsicTriangulation::splitEdge(Halfedge he, double tSplit) {
-  return insertVertex_edge(SurfacePoint(he, tSplit));
+  bool forward = (he == he.edge().halfedge());
+  Halfedge newHeFront = insertVertex_edge(SurfacePoint(he, tSplit)); // points in the direction of edge.halfedge()
+  return forward ? newHeFront : newHeFront.next().next().twin().next().next().twin();
 }
 
 
-- 
2.43.0


From 1a59123e02a6a117916f4e4fee7e6cd9be90ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 073/103] fix: signpost traceInputHalfedgeAlongIntrinsic()
 looked up whether an edge is still there by an index that removing vertices
 changes, and so reported another edge's answer

---
 .../signpost_intrinsic_triangulation.cpp      | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 1b2532a..c6f63ae 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -102,22 +102,23 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
 std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlongIntrinsic(Halfedge inputHe,
                                                                                            bool trimEnd) {
 
-  // Optimization: don't bother tracing original edges, just report them directly
-  // Here we need to check if the corresponding intrinsic edge is original
-  Halfedge origHe = intrinsicMesh->halfedge(inputHe.getIndex()); // as usual, safe by dense construction
-  if (edgeIsOriginal[origHe.edge()]) {
-    Vertex vA = inputHe.tailVertex();
-    Vertex vB = inputHe.tipVertex();
-    std::vector<SurfacePoint> result{SurfacePoint(vA), SurfacePoint(vB)};
-    return result;
-  }
-
-
   Vertex vTail = inputHe.tailVertex();
   Vertex vTip = inputHe.tipVertex();
 
-  // Get the corresponding tail vertex on the intrinsic triangulation
+  // Get the corresponding vertices on the intrinsic triangulation
   Vertex vTailIntrinsic = intrinsicMesh->vertex(vTail.getIndex()); // as usual, safe by dense construction
+  Vertex vTipIntrinsic = intrinsicMesh->vertex(vTip.getIndex());
+
+  // Optimization: don't bother tracing original edges, just report them directly
+  // Here we need to check if the corresponding intrinsic edge is original (look for it by its direction, because unlike
+  // the vertices the edges do not keep their indices when vertices are removed)
+  Vector2 inputDir = unit(inputGeom.halfedgeVectorsInVertex[inputHe]);
+  for (Halfedge he : vTailIntrinsic.outgoingHalfedges()) {
+    if (edgeIsOriginal[he.edge()] && he.tipVertex() == vTipIntrinsic &&
+        norm(unit(halfedgeVectorsInVertex[he]) - inputDir) < 1e-6) {
+      return std::vector<SurfacePoint>{SurfacePoint(vTailIntrinsic), SurfacePoint(vTipIntrinsic)};
+    }
+  }
 
   // Gather values to trace
   SurfacePoint startP = SurfacePoint(vTailIntrinsic);
@@ -130,7 +131,6 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
   TraceGeodesicResult result = traceGeodesic(*this, startP, traceVec, options);
 
   // Trim off end crumbs if applicable
-  Vertex vTipIntrinsic = intrinsicMesh->vertex(vTip.getIndex()); // as usual, safe by dense construction
   if (trimEnd) {
     bool success = trimTraceResult(result, vTipIntrinsic);
     if (success) {
-- 
2.43.0


From 5dd2fa3a86914f09ce0c9aebed3941d89e3b6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 074/103] fix: the signpost common subdivision left out the
 shared-edge point of the last piece of every input edge

---
 src/surface/signpost_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index c6f63ae..209ab6a 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -873,7 +873,7 @@ void SignpostIntrinsicTriangulation::constructCommonSubdivision() {
 
     // Walk along the edge, any time we see two consecutive vertex points, there must be a
     // parallel edge there.
-    for (size_t iP = 1; iP + 1 < vec.size(); iP++) {
+    for (size_t iP = 1; iP < vec.size(); iP++) {
 
       if (vec[iP - 1]->posB.type == SurfacePointType::Vertex && vec[iP]->posB.type == SurfacePointType::Vertex) {
 
-- 
2.43.0


From 1e3e847248f7e3bcec87c7a0dcc04cebc1646d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 075/103] fix: tracing from a vertex with a small angle sum
 started in a wrong face when one corner there spans more than half of the
 rescaled directions

---
 src/surface/trace_geodesic.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 7a9f55a..96858c5 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -564,7 +564,12 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
     // Check if our trace vector lies within the interval
     double crossStart = cross(intervalStart, currVecDir);
     double crossEnd = cross(intervalEnd, currVecDir);
-    if (crossStart > 0. && crossEnd <= 0.) {
+    bool inWedge = crossStart > 0. && crossEnd <= 0.;
+    if (currHe == nextHe || cross(intervalStart, intervalEnd) < -TRACE_EPS_TIGHT) {
+      // the wedge spans more than a half turn of the (rescaled) tangent space
+      inWedge = crossStart > 0. || crossEnd <= 0.;
+    }
+    if (inWedge) {
       wedgeHe = currHe;
       traceDirRelativeToStart = currVecDir / intervalStart;
       if (TRACE_PRINT) cout << "    wedge match! relative angle " << traceDirRelativeToStart << endl;
@@ -603,8 +608,9 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
 
   // Need to convert from "powered" representation to flat vector in face
   double sum = currVert.isBoundary() ? M_PI : 2. * M_PI;
-  traceDirRelativeToStart = traceDirRelativeToStart.pow(geom.vertexAngleSums[currVert] / sum);
-  traceDirRelativeToStart = traceDirRelativeToStart.normalize();
+  double traceAngleRelativeToStart = traceDirRelativeToStart.arg();
+  if (traceAngleRelativeToStart < -TRACE_EPS_TIGHT) traceAngleRelativeToStart += 2. * M_PI; // (always counter-clockwise in the wedge)
+  traceDirRelativeToStart = Vector2::fromAngle(traceAngleRelativeToStart * geom.vertexAngleSums[currVert] / sum);
 
   // Compute the starting vector
   Vector2 startDirInFace = geom.halfedgeVectorsInFace[wedgeHe].normalize();
-- 
2.43.0


From d99fafe50d2035124f1c53393e31e1f2621dbdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 076/103] fix: tracing an input edge from one of its crossings
 took a curve that crosses an intrinsic halfedge several times for a closed
 loop

---
 src/surface/normal_coordinates.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index adc4ffa..434eb37 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -335,6 +335,7 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
   int startIndex = index;
 
   NormalCoordinatesCurve path;
+  bool reachedVertex = false;
 
   do {
     int n = edgeCoords[he.edge()];
@@ -347,11 +348,13 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
 
     path.crossings.push_back(std::make_pair(index, he));
 
-  } while (!stepTopologicalCurve(he, index) && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
+    reachedVertex = stepTopologicalCurve(he, index);
+
+  } while (!reachedVertex && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
 
   // If we made a complete loop, record the starting point (also the ending
   // point) again
-  if ((he == startHe && index == startIndex) || he.edge().isBoundary())
+  if (!reachedVertex && ((he == startHe && index == startIndex) || he.edge().isBoundary()))
     path.crossings.push_back(std::make_pair(index, he));
 
   return path;
@@ -391,7 +394,7 @@ std::tuple<NormalCoordinatesCurve, int> NormalCoordinates::topologicalTraceBidir
   // Case where the curve is a cycle
   // TODO this may be wrong
   if (forwardTrace.crossings.size() > 1 &&
-      forwardTrace.crossings.front().second == forwardTrace.crossings.back().second) {
+      forwardTrace.crossings.front() == forwardTrace.crossings.back()) {
     throw std::runtime_error("encountered a loop while tracing normal coordinates");
   }
 
-- 
2.43.0


From 0e29b73088eac6f1fa72f8df04f364998771ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:16 +0000
Subject: [PATCH 077/103] fix: trimTraceResult() dropped true crossings of
 edges that end at the target vertex

---
 src/surface/trace_geodesic.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 96858c5..0f523b0 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -25,6 +25,7 @@ namespace {
 // a few parameters
 const double TRACE_EPS_TIGHT = 1e-12;
 const double TRACE_EPS_LOOSE = 1e-9;
+const double TRACE_EPS_TRIM = 1e-4; // how close to a vertex trimTraceResult() takes crossings for noise
 const bool TRACE_PRINT = false;
 
 inline std::array<Vector2, 3> vertexCoordinatesInTriangle(IntrinsicGeometryInterface& geom, Face face) {
@@ -819,10 +820,11 @@ bool trimTraceResult(TraceGeodesicResult& traceResult, Vertex targetVertex) {
   while (traceResult.pathPoints.size() > 1) {
     SurfacePoint& b = traceResult.pathPoints.back();
 
-    // Remove any edge crossings connected to the target vertex: they're numerical noise because we're already in the
-    // 1-ring
+    // Remove any edge crossings right at the target vertex: they're numerical noise because we're already in the
+    // 1-ring (but keep crossings elsewhere along such an edge, the path may well pass there before it gets to the target)
     if (b.type == SurfacePointType::Edge &&
-        (b.edge.halfedge().vertex() == targetVertex || b.edge.halfedge().twin().vertex() == targetVertex)) {
+        ((b.edge.halfedge().vertex() == targetVertex && b.tEdge < TRACE_EPS_TRIM) ||
+         (b.edge.halfedge().twin().vertex() == targetVertex && b.tEdge > 1. - TRACE_EPS_TRIM))) {
       traceResult.pathPoints.pop_back();
       traceResult.endingDir = Vector2::undefined();
       continue;
-- 
2.43.0


From 35ce52e426f7d54ef4c078dac4ae13c1ce9a64b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 078/103] fix: tracing out of the surface from a boundary edge
 reported an arbitrary length

---
 src/surface/trace_geodesic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 0f523b0..29a6aad 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -497,6 +497,7 @@ inline TraceSubResult traceGeodesic_fromEdge(IntrinsicGeometryInterface& geom, E
       result.terminated = true;
       result.endPoint = SurfacePoint(currEdge, tEdge);
       result.incomingDirToPoint = currVecDir;
+      result.traceVectorInHalfedgeLen = currVecLen;
 
       return result;
     }
-- 
2.43.0


From 300cdc61f71769904225aa9ca1e95de90c626b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 079/103] fix: tracing a zero vector reported no end point

---
 src/surface/trace_geodesic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 29a6aad..2088414 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -713,6 +713,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
     geom.unrequireHalfedgeVectorsInVertex();
     geom.unrequireHalfedgeVectorsInFace();
 
+    result.endPoint = startP;
     result.endingDir = Vector2::zero();
     result.length = 0;
 
@@ -787,6 +788,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
       throw std::runtime_error("zero vec passed to trace, do something good here");
     }
 
+    result.endPoint = SurfacePoint(startFace, startBary);
     result.endingDir = Vector2::zero();
     result.length = 0;
     return result;
-- 
2.43.0


From 55eaab1ad297e9f92e86b89a7e137234c81e4a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 080/103] fix: a trace that stopped at a barrier or at the
 limit of iterations reported its end direction in the frame of the halfedge
 crossed instead of that of the edge

---
 src/surface/trace_geodesic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 2088414..93ce6f2 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -307,7 +307,7 @@ inline TraceSubResult traceInFaceBarycentric(IntrinsicGeometryInterface& geom, F
     TraceSubResult result;
     result.terminated = true;
     result.endPoint = SurfacePoint(crossHe.edge(), convertTToEdge(crossHe, tCross));
-    result.incomingDirToPoint = remainingDirInHalfedge;
+    result.incomingDirToPoint = convertVecToEdge(crossHe, remainingDirInHalfedge);
     result.traceVectorInHalfedgeLen = lenRemaining;
 
     return result;
@@ -643,7 +643,7 @@ void traceGeodesic_iterative(IntrinsicGeometryInterface& geom, TraceGeodesicResu
 
       // Use the last trace as ending data
       result.endPoint = SurfacePoint(prevTraceEnd.crossHe, prevTraceEnd.tCross);
-      result.endingDir = prevTraceEnd.traceVectorInHalfedgeDir;
+      result.endingDir = convertVecToEdge(prevTraceEnd.crossHe, prevTraceEnd.traceVectorInHalfedgeDir);
       result.length -= prevTraceEnd.traceVectorInHalfedgeLen;
 
       if (traceOptions.includePath) {
-- 
2.43.0


From a3751e6c798c5b521fca98dd7d483119f94b2eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 081/103] fix: tracing along the last boundary edge of a vertex
 went the opposite way, along the first one

---
 src/surface/trace_geodesic.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 93ce6f2..49a1b07 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -579,13 +579,13 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
       break;
     }
 
-    // Keep track of the closest halfedge, as described above
-    if (std::fabs(crossStart) < minCross) {
+    // Keep track of the closest halfedge, as described above (not one that points the other way)
+    if (dot(intervalStart, currVecDir) >= 0. && std::fabs(crossStart) < minCross) {
       minCross = std::fabs(crossStart);
       minCrossHalfedge = currHe;
       minCrossHalfedgeDir = Vector2{1, TRACE_EPS_TIGHT};
     }
-    if (std::fabs(crossEnd) < minCross) {
+    if (dot(intervalEnd, currVecDir) >= 0. && std::fabs(crossEnd) < minCross) {
       minCross = std::fabs(crossEnd);
       minCrossHalfedge = nextHe;
       minCrossHalfedgeDir = Vector2{1, -TRACE_EPS_TIGHT};
-- 
2.43.0


From 90fabf647523eaccb7e9a7b07f2e7890033e4c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 082/103] fix: CommonSubdivision::intersectionsA() counted the
 markers of shared edges on input edges that carry inserted vertices

---
 src/surface/common_subdivision.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/surface/common_subdivision.cpp b/src/surface/common_subdivision.cpp
index 0cf727c..1d5b304 100644
--- a/src/surface/common_subdivision.cpp
+++ b/src/surface/common_subdivision.cpp
@@ -298,11 +298,11 @@ std::tuple<size_t, size_t, size_t> CommonSubdivision::elementCounts() const {
 }
 
 size_t CommonSubdivision::intersectionsA(Edge eA) const {
-  if (pointsAlongA[eA].size() == 3 && pointsAlongA[eA][1]->intersectionType == CSIntersectionType::EDGE_PARALLEL) {
-    return 0; // shared edge;
-  } else {
-    return pointsAlongA[eA].size() - 2; // trim off endpoints
+  size_t n = 0;
+  for (CommonSubdivisionPoint* p : pointsAlongA[eA]) {
+    if (p->intersectionType != CSIntersectionType::EDGE_PARALLEL) n++; // markers of shared edges are not intersections
   }
+  return n - 2; // trim off endpoints
 }
 
 size_t CommonSubdivision::intersectionsB(Edge eB) const {
-- 
2.43.0


From 68f2ec6f68291e587fa2344c13f988f3e7b2ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 083/103] fix: the signpost common subdivision matched a shared
 input edge with any intrinsic edge joining the same vertices, also one that
 crosses other edges

---
 src/surface/signpost_intrinsic_triangulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 209ab6a..7c2bfbb 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -891,7 +891,8 @@ void SignpostIntrinsicTriangulation::constructCommonSubdivision() {
         // and edge of the common subdivision, so it must be unique between its endpoints.
         bool found = false;
         for (Halfedge he : vec[iP - 1]->posB.vertex.outgoingHalfedges()) {
-          if (he.tipVertex() == vec[iP]->posB.vertex) {
+          // other edges of mesh B may join the same two vertices, but cross something on the way
+          if (he.tipVertex() == vec[iP]->posB.vertex && cs.pointsAlongB[he.edge()].size() == 2) {
             csPoint.posB = SurfacePoint(he.edge(), 0.5);
             found = true;
             break;
-- 
2.43.0


From 7d168976daa745d2c7b5272c9ffedb7c129d250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 084/103] fix: interpolateEdgeLengthsB() measured pieces of
 edges in a wrong face, or at a wrong corner of it, where an intrinsic
 triangulation joins two vertices by several edges; AttributeTransfer then
 gave NaN

---
 .../surface/common_subdivision.h              |  5 +-
 src/surface/common_subdivision.cpp            | 73 +++++++++++++++----
 2 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/include/geometrycentral/surface/common_subdivision.h b/include/geometrycentral/surface/common_subdivision.h
index a5f1a50..632a341 100644
--- a/include/geometrycentral/surface/common_subdivision.h
+++ b/include/geometrycentral/surface/common_subdivision.h
@@ -111,6 +111,8 @@ public:
   // For each face in the common subdivision, which face in meshB is it a sub-face of?
   FaceData<Face> sourceFaceB;
 
+  // For each corner in the common subdivision, where is it in the `sourceFaceB` of its face? (barycentric coordinates)
+  CornerData<Vector3> sourceCoordsB;
 
   // === Methods
 
@@ -175,7 +177,8 @@ public:
 
   // Helper routine abstracting common logic for mesh creation.
   void constructMeshData(std::vector<std::vector<size_t>>& faces_out, std::vector<CommonSubdivisionPoint*>& parents_out,
-                         std::vector<Face>& sourceFaceA_out, std::vector<Face>& sourceFaceB_out);
+                         std::vector<Face>& sourceFaceA_out, std::vector<Face>& sourceFaceB_out,
+                         std::vector<std::vector<Vector3>>& sourceCoordsB_out);
 
   // Throws an error if the mesh has not yet been constructed.
   void checkMeshConstructed() const;
diff --git a/src/surface/common_subdivision.cpp b/src/surface/common_subdivision.cpp
index 1d5b304..a813a27 100644
--- a/src/surface/common_subdivision.cpp
+++ b/src/surface/common_subdivision.cpp
@@ -213,15 +213,11 @@ EdgeData<double> CommonSubdivision::interpolateEdgeLengthsB(const EdgeData<doubl
   };
 
   EdgeData<double> lengthCS(*mesh);
+  // Look at both ends in the face which contains the edge: they may lie in other faces too, and more than once in a face
   for (Edge e : mesh->edges()) {
-    SurfacePoint tail = sourcePoints[e.halfedge().tailVertex()]->posB;
-    SurfacePoint tip = sourcePoints[e.halfedge().tipVertex()]->posB;
-    Face f = sharedFace(tail, tip);
-    GC_SAFETY_ASSERT(f != Face(), "common subdivision edges must be contained in a face");
-    tail = tail.inFace(f);
-    tip = tip.inFace(f);
-
-    lengthCS[e] = displacementLength(tip.faceCoords - tail.faceCoords, fEdgeLengths(f));
+    Halfedge he = e.halfedge();
+    Vector3 displacement = sourceCoordsB[he.next().corner()] - sourceCoordsB[he.corner()];
+    lengthCS[e] = displacementLength(displacement, fEdgeLengths(sourceFaceB[he.face()]));
   }
 
   return lengthCS;
@@ -354,12 +350,20 @@ void CommonSubdivision::constructMesh(bool triangulate, bool skipIfAlreadyConstr
   std::vector<CommonSubdivisionPoint*> parents;
   std::vector<Face> sourceFaceA_vec;
   std::vector<Face> sourceFaceB_vec;
-  constructMeshData(faces, parents, sourceFaceA_vec, sourceFaceB_vec);
+  std::vector<std::vector<Vector3>> sourceCoordsB_vec;
+  constructMeshData(faces, parents, sourceFaceA_vec, sourceFaceB_vec, sourceCoordsB_vec);
 
   mesh.reset(new ManifoldSurfaceMesh(faces));
   sourcePoints = fromStdVector<Vertex>(*mesh, parents);
   sourceFaceA = fromStdVector<Face>(*mesh, sourceFaceA_vec);
   sourceFaceB = fromStdVector<Face>(*mesh, sourceFaceB_vec);
+  sourceCoordsB = CornerData<Vector3>(*mesh);
+  for (size_t iF = 0; iF < faces.size(); iF++) {
+    for (Corner c : mesh->face(iF).adjacentCorners()) {
+      size_t i = std::find(faces[iF].begin(), faces[iF].end(), c.vertex().getIndex()) - faces[iF].begin();
+      sourceCoordsB[c] = sourceCoordsB_vec[iF][i];
+    }
+  }
 
   if (triangulate) {
     triangulateMesh();
@@ -377,7 +381,8 @@ std::unique_ptr<SimplePolygonMesh> CommonSubdivision::buildSimpleMesh() {
   std::vector<CommonSubdivisionPoint*> parents;
   std::vector<Face> sourceFaceA_vec;
   std::vector<Face> sourceFaceB_vec;
-  constructMeshData(faces, parents, sourceFaceA_vec, sourceFaceB_vec);
+  std::vector<std::vector<Vector3>> sourceCoordsB_vec;
+  constructMeshData(faces, parents, sourceFaceA_vec, sourceFaceB_vec, sourceCoordsB_vec);
 
   std::vector<Vector3> dummyPositions(parents.size(), Vector3::zero());
   return std::unique_ptr<SimplePolygonMesh>(new SimplePolygonMesh(faces, dummyPositions));
@@ -386,7 +391,8 @@ std::unique_ptr<SimplePolygonMesh> CommonSubdivision::buildSimpleMesh() {
 
 void CommonSubdivision::constructMeshData(std::vector<std::vector<size_t>>& faces_out,
                                           std::vector<CommonSubdivisionPoint*>& parents_out,
-                                          std::vector<Face>& sourceFaceA_out, std::vector<Face>& sourceFaceB_out) {
+                                          std::vector<Face>& sourceFaceA_out, std::vector<Face>& sourceFaceB_out,
+                                          std::vector<std::vector<Vector3>>& sourceCoordsB_out) {
 
   // Compute element counts to reserve space
   // size_t nV, nE, nF;
@@ -450,9 +456,45 @@ void CommonSubdivision::constructMeshData(std::vector<std::vector<size_t>>& face
     std::vector<size_t> pki = crossingVtxIds[ki.edge()];
     if (ki != ki.edge().halfedge()) std::reverse(std::begin(pki), std::end(pki));
 
-    std::vector<std::vector<size_t>> newFaces = sliceFace(pij, pjk, pki);
+    // Number the points around the face, and note where each of them is. (A vertex or edge can appear more than once along
+    // the boundary of a face, so the ids do not tell.)
+    std::vector<size_t> pointIds;
+    std::vector<Vector3> pointCoords;
+    auto numberPoints = [&](Halfedge he, const std::vector<size_t>& p, size_t iSide) {
+      std::vector<size_t> result;
+      for (size_t iP = 0; iP < p.size(); iP++) {
+        result.push_back(pointIds.size() + iP);
+      }
+      for (size_t iP = 0; iP + 1 < p.size(); iP++) {
+        double t = 0.;
+        if (iP > 0) {
+          size_t iAlong = he == he.edge().halfedge() ? iP : p.size() - 1 - iP;
+          t = pointsAlongB[he.edge()][iAlong]->posB.tEdge;
+          if (he != he.edge().halfedge()) t = 1. - t;
+        }
+        Vector3 coords = Vector3::zero();
+        coords[iSide] = 1. - t;
+        coords[(iSide + 1) % 3] = t;
+        pointIds.push_back(p[iP]);
+        pointCoords.push_back(coords);
+      }
+      return result;
+    };
+    std::vector<size_t> qij = numberPoints(ij, pij, 0);
+    std::vector<size_t> qjk = numberPoints(jk, pjk, 1);
+    std::vector<size_t> qki = numberPoints(ki, pki, 2);
+    qki.back() = 0;
+
+    std::vector<std::vector<size_t>> newFaces = sliceFace(qij, qjk, qki);
+
+    for (const auto& newPoints : newFaces) {
+      std::vector<size_t> newF;
+      std::vector<Vector3> newCoords;
+      for (size_t i : newPoints) {
+        newF.push_back(pointIds[i]);
+        newCoords.push_back(pointCoords[i]);
+      }
 
-    for (const auto& newF : newFaces) {
       // GC_SAFETY_ASSERT(newF.size() > 2,
       //                  "No bigons allowed in common subdivision.");
       if (newF.size() <= 2) {
@@ -465,6 +507,7 @@ void CommonSubdivision::constructMeshData(std::vector<std::vector<size_t>>& face
 
       faces_out.push_back(newF);
       sourceFaceB_out.push_back(f);
+      sourceCoordsB_out.push_back(newCoords);
 
       // Reconstruct the source faces on A. This uses a search around the nearby faces, which is not necessarily an
       // ideal strategy, but should work fine. ONEDAY we might want to to track some extra data about the intersections
@@ -538,12 +581,16 @@ void CommonSubdivision::constructMeshData(std::vector<std::vector<size_t>>& face
 void CommonSubdivision::triangulateMesh() {
   checkMeshConstructed();
   for (Face oldFace : mesh->faces()) {
+    std::map<Vertex, Vector3> oldCoordsB;
+    for (Corner c : oldFace.adjacentCorners()) oldCoordsB[c.vertex()] = sourceCoordsB[c];
+
     std::vector<Face> newFaces = mesh->triangulate(oldFace);
 
     // fix up data arrays
     for (Face newFace : newFaces) {
       sourceFaceA[newFace] = sourceFaceA[oldFace];
       sourceFaceB[newFace] = sourceFaceB[oldFace];
+      for (Corner c : newFace.adjacentCorners()) sourceCoordsB[c] = oldCoordsB[c.vertex()];
     }
   }
 
-- 
2.43.0


From 58880fdf69ece67c2a7506e2227e422e3576bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 085/103] fix: the stand-alone flipToDelaunay() refused every
 mesh with boundary

---
 src/surface/simple_idt.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/surface/simple_idt.cpp b/src/surface/simple_idt.cpp
index 8580d28..9b22036 100644
--- a/src/surface/simple_idt.cpp
+++ b/src/surface/simple_idt.cpp
@@ -118,8 +118,7 @@ size_t flipToDelaunay(SurfaceMesh& mesh, EdgeData<double>& edgeLengths, FlipType
 
   auto flipEdgeIfNotDelaunay = [&](Edge e) {
     // Can't flip
-    //if (e.isBoundary()) return false;
-    if (e.isBoundary()) throw std::runtime_error("boundary");
+    if (e.isBoundary()) return false;
     if (!e.isManifold()) throw std::runtime_error("nonmanifold");
 
     // Don't want to flip
-- 
2.43.0


From 3b5b1a756b45286cc79d2f83dec8105e5b3a3fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 086/103] fix: delaunayRefine() stopped by maxInsertions left
 edges that are not Delaunay, flipped in an attempt to remove a vertex that
 then failed

---
 src/surface/intrinsic_triangulation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surface/intrinsic_triangulation.cpp b/src/surface/intrinsic_triangulation.cpp
index bf9d73d..7555246 100644
--- a/src/surface/intrinsic_triangulation.cpp
+++ b/src/surface/intrinsic_triangulation.cpp
@@ -505,12 +505,13 @@ void IntrinsicTriangulation::delaunayRefine(const std::function<bool(Face)>& sho
       }
     }
 
-    // Add neighbors to queue, as they may need flipping now
+    // Add neighbors to queue, as they may need flipping now. So does the flipped edge itself, unless the flip was made to
+    // get it Delaunay.
     Halfedge he = e.halfedge();
     Halfedge heN = he.next();
     Halfedge heT = he.twin();
     Halfedge heTN = heT.next();
-    std::vector<Edge> neighEdges = {heN.edge(), heN.next().edge(), heTN.edge(), heTN.next().edge()};
+    std::vector<Edge> neighEdges = {e, heN.edge(), heN.next().edge(), heTN.edge(), heTN.next().edge()};
     for (Edge nE : neighEdges) {
       if (!inDelaunayQueue[nE]) {
         delaunayCheckQueue.push_back(nE);
-- 
2.43.0


From abc34921a7e268a6141c993aa44302b1464c7c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 087/103] fix: collapsing an edge of a doubly covered triangle
 threw instead of being refused, so that quadricErrorSimplify() failed on
 surfaces it had reduced to one

---
 src/surface/manifold_surface_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 03f158a..822055b 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1139,8 +1139,9 @@ bool ManifoldSurfaceMesh::canCollapseEdgeTriangular(Edge e) const {
       }
     }
 
+    // collapsing interior vertices with degree < 3 is not supported
     if (heA0.vertex().degree() < 3) {
-      throw std::runtime_error("Collapsing interior vertices with degree < 3 is not supported.");
+      return false;
     }
   }
 
-- 
2.43.0


From 392de85888d185f93afbf6991aeae798ad5622ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 088/103] fix: constructFromEdgeSet() ignored
 extraMarkedVertices at which it did not end an open path, so that loops were
 not pinned there

---
 src/surface/flip_geodesics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index e4a6810..b7ba130 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -392,7 +392,7 @@ std::unique_ptr<FlipEdgeNetwork> FlipEdgeNetwork::constructFromEdgeSet(ManifoldS
     } while (heCurr != heStart);
   }
 
-  return std::unique_ptr<FlipEdgeNetwork>(new FlipEdgeNetwork(mesh_, geom, allHalfedges));
+  return std::unique_ptr<FlipEdgeNetwork>(new FlipEdgeNetwork(mesh_, geom, allHalfedges, extraMarkedVertices));
 }
 
 
-- 
2.43.0


From b54c23c70dd306c05afb3624d029df558c08e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 089/103] fix: the joint at which a closed path starts was
 never considered for straightening by iterativeShorten()

---
 src/surface/flip_geodesics.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index b7ba130..a70a48f 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -67,6 +67,9 @@ FlipEdgePath::FlipEdgePath(FlipEdgeNetwork& network_, std::vector<Halfedge> half
     std::get<1>(pathHeInfo[firstID]) = lastID;
     std::get<2>(pathHeInfo[lastID]) = firstID;
 
+    // The wedge where the loop closes up only exists now that the ends are connected
+    network.addToWedgeAngleQueue({this, firstID});
+
   } else {
 
     // Set marked vertex flags for endpoints
-- 
2.43.0


From ce1d35ec5d57ad2a0ebe5be7df24dcb9f5eb96dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 090/103] fix: iterativeShorten() dropped joints whose angle
 had changed by a rounding error, and the larger angle of a joint when the
 smaller was blocked, leaving paths that are not geodesic

---
 src/surface/flip_geodesics.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index a70a48f..646dfb4 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -942,9 +942,13 @@ void FlipEdgeNetwork::iterativeShorten(size_t maxIterations, double maxRelativeL
     if (path.pathHeInfo.find(pathSegment.id) == path.pathHeInfo.end()) {
       continue; // segment no longer exists
     }
-    double currAngle = minWedgeAngle(pathSegment);
+    double leftAngle, rightAngle;
+    std::tie(leftAngle, rightAngle) = measureSideAngles(pathSegment.prev().halfedge(), pathSegment.halfedge());
+    double currAngle = (angleType == SegmentAngleType::LeftTurn) ? leftAngle : rightAngle;
     if (currAngle != minAngle) {
-      continue; // angle has changed
+      // angle has changed, consider it again if it still needs straightening
+      if (currAngle <= (M_PI - EPS_ANGLE)) wedgeAngleQueue.emplace(currAngle, angleType, pathSegment);
+      continue;
     }
 
     // Make sure the wedge is clear
-- 
2.43.0


From 1b35beac8d47ae85c24dcc2476e2d5a89a3ae466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 091/103] fix: iterativeShorten() got stuck at edges that
 makeDelaunay() or delaunayRefine() had fixed and paths had left since

---
 src/surface/flip_geodesics.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 646dfb4..f33b8c3 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -927,6 +927,13 @@ void FlipEdgeNetwork::iterativeShorten(size_t maxIterations, double maxRelativeL
     initLength = length();
   }
 
+  // Path edges are free to flip once the path leaves them, even if makeDelaunay() or delaunayRefine() marked them as fixed
+  if (tri->markedEdges.size() > 0) {
+    for (Edge e : tri->mesh.edges()) {
+      if (edgeInPath(e)) tri->markedEdges[e] = false;
+    }
+  }
+
   size_t nIterations = 0;
 
   while (!wedgeAngleQueue.empty() && (maxIterations == INVALID_IND || nIterations < maxIterations)) {
-- 
2.43.0


From ccd1ef7ccda7f85e78448e2c1b2424acdfae04a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 092/103] fix: iterativeShorten() never returned once a loop
 had closed in on a vertex with less than a half turn around it

---
 src/surface/flip_geodesics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index f33b8c3..ea1a27f 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -865,6 +865,10 @@ void FlipEdgeNetwork::processSingleEdgeLoop(FlipPathSegment& pathSegment, Segmen
   Halfedge he;
   std::tie(he, UNUSED1, UNUSED2) = edgePath.pathHeInfo[id];
 
+  // A loop around nothing but a degree-1 vertex contracts to a point, which can not be represented. Leave it alone, the
+  // other two edges of the triangle are the same longer edge back and forth.
+  Halfedge heInside = (angleType == SegmentAngleType::LeftTurn) ? he : he.twin();
+  if (heInside.next().edge() == heInside.next().next().edge()) return;
 
   // == Replace the old segment with the two opposite edges of the triangle
 
-- 
2.43.0


From 54a44e94a5e94596e01afc57c6bde0bb5de60169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 093/103] fix: a path doubling back over one edge was not
 straightened although there was room to

---
 src/surface/flip_geodesics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index ea1a27f..242be04 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -815,6 +815,7 @@ void FlipEdgeNetwork::locallyShortenAt(FlipPathSegment& pathSegment, SegmentAngl
         // Flip happened! Update data and continue processing
         // Re-check previous edge
         sCurr = sCurr.twin().next().twin();
+        if (sCurr == sPrevTwin) sCurr = sCurr.twin().next(); // not the first, which is also the last if the path doubles back
       } else {
 
         sCurr = sCurr.twin().next(); // advance to next edge
-- 
2.43.0


From 26ad65b003cbca34c38ed2c3d9350cb7c50f3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 094/103] fix: minAngleIsotopy() looked for pinned vertices at
 the far ends of segments, so that it reported the angles of pinned joints and
 left out others

---
 src/surface/flip_geodesics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 242be04..f050c3a 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -480,7 +480,7 @@ double FlipEdgeNetwork::minAngleIsotopy() {
       }
 
       // Skip if the vertex is marked and not straightening
-      if (!straightenAroundMarkedVertices && isMarkedVertex[currHe.twin().vertex()]) continue;
+      if (!straightenAroundMarkedVertices && isMarkedVertex[currHe.vertex()]) continue;
 
       minAngle = std::fmin(minAngle, result.minAngle);
     }
-- 
2.43.0


From b63aa35e253f6144bd2c00e6eccf6bfdde7e5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 095/103] fix: delaunayRefine() made a degenerate triangle
 where a circumcenter lies on a fixed edge up to rounding

---
 src/surface/intrinsic_triangulation.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/surface/intrinsic_triangulation.cpp b/src/surface/intrinsic_triangulation.cpp
index 7555246..b29e9e3 100644
--- a/src/surface/intrinsic_triangulation.cpp
+++ b/src/surface/intrinsic_triangulation.cpp
@@ -275,6 +275,18 @@ Vertex IntrinsicTriangulation::insertCircumcenter(Face f) {
   // SurfacePoint newPositionOnIntrinsic = intrinsicTraceResult.endPoint.inSomeFace();
   SurfacePoint newPositionOnIntrinsic = intrinsicTraceResult.endPoint;
 
+  // A circumcenter which lies on a fixed edge up to rounding may end just short of it, do not make a degenerate triangle
+  if (newPositionOnIntrinsic.type == SurfacePointType::Face) {
+    Halfedge he = newPositionOnIntrinsic.face.halfedge();
+    for (int i = 0; i < 3; i++) {
+      if (newPositionOnIntrinsic.faceCoords[(i + 2) % 3] < 1e-6 && isFixed(he.edge())) {
+        newPositionOnIntrinsic = SurfacePoint(he.edge(), 0.5);
+        break;
+      }
+      he = he.next();
+    }
+  }
+
   // If the circumcenter is blocked by an edge, insert the midpoint of that edge instead
   // (which happens to be just want is needed for Chew's 2nd algo).
   if (newPositionOnIntrinsic.type == SurfacePointType::Edge) {
-- 
2.43.0


From 5ed639ff8b8a1810cb29272e61cdcf7dccf49509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 096/103] fix: boundary-aligned direction fields multiply the
 right-hand side of the boundary problem by a mass matrix, so that the field
 is not the smoothest one in between

---
 src/surface/direction_fields.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index be79ff7..76a85a0 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -149,12 +149,8 @@ VertexData<Vector2> computeSmoothestBoundaryAlignedVertexDirectionField(Intrinsi
     throw std::logic_error("tried to compute smoothest boundary aligned direction field on a mesh without boundary");
   }
 
-  geometry.requireVertexGalerkinMassMatrix();
   geometry.requireHalfedgeVectorsInVertex();
 
-  // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.vertexGalerkinMassMatrix.cast<std::complex<double>>();
-
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeVertexConnectionLaplacian(geometry, nSym);
 
@@ -204,7 +200,7 @@ VertexData<Vector2> computeSmoothestBoundaryAlignedVertexDirectionField(Intrinsi
   }
 
   Eigen::SparseMatrix<std::complex<double>, Eigen::ColMajor> LHS = energyMatrix;
-  Eigen::VectorXcd RHS = massMatrix * b;
+  Eigen::VectorXcd RHS = b;
   Eigen::VectorXcd solution = solveSquare(LHS, RHS);
 
   // Copy the result to a VertexData vector for both the boundary and interior
@@ -229,12 +225,8 @@ FaceData<Vector2> computeSmoothestBoundaryAlignedFaceDirectionField(IntrinsicGeo
     throw std::logic_error("tried to compute smoothest boundary aligned direction field on a mesh without boundary");
   }
 
-  geometry.requireFaceGalerkinMassMatrix();
   geometry.requireHalfedgeVectorsInFace();
 
-  // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.faceGalerkinMassMatrix.cast<std::complex<double>>();
-
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeFaceConnectionLaplacian(geometry, nSym);
 
@@ -287,7 +279,7 @@ FaceData<Vector2> computeSmoothestBoundaryAlignedFaceDirectionField(IntrinsicGeo
   }
 
   Eigen::SparseMatrix<std::complex<double>, Eigen::ColMajor> LHS = energyMatrix;
-  Eigen::VectorXcd RHS = massMatrix * b;
+  Eigen::VectorXcd RHS = b;
   Eigen::VectorXcd solution = solveSquare(LHS, RHS);
 
   // Copy the result to a FaceData object
-- 
2.43.0


From 6d9424fb4e4d418b88fee6f8fa4b244e2386f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 097/103] fix: computeFaceIndex leaves out the turning along
 boundary edges, so that faces with two of them get wrong indices

---
 src/surface/direction_fields.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index 76a85a0..20b4110 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -416,19 +416,17 @@ FaceData<int> computeFaceIndex(IntrinsicGeometryInterface& geometry, const Verte
     double totalRot = geometry.faceGaussianCurvatures[f] * nSym;
 
     for (Halfedge he : f.adjacentHalfedges()) {
-      if (he.twin().isInterior()) {
-        // Compute the rotation along the halfedge implied by the field
-        Vector2 x0 = directionField[he.vertex()];
-        Vector2 x1 = directionField[he.twin().vertex()];
-        Vector2 rot = geometry.transportVectorsAlongHalfedge[he].pow(nSym);
+      // Compute the rotation along the halfedge implied by the field
+      Vector2 x0 = directionField[he.vertex()];
+      Vector2 x1 = directionField[he.twin().vertex()];
+      Vector2 rot = geometry.transportVectorsAlongHalfedge[he].pow(nSym);
 
-        // Find the difference in angle
-        double theta0 = (rot * x0).arg();
-        double theta1 = x1.arg();
-        double deltaTheta = regularizeAngle(theta1 - theta0 + PI) - PI; // regularize to [-PI,PI]
+      // Find the difference in angle
+      double theta0 = (rot * x0).arg();
+      double theta1 = x1.arg();
+      double deltaTheta = regularizeAngle(theta1 - theta0 + PI) - PI; // regularize to [-PI,PI]
 
-        totalRot += deltaTheta; // accumulate
-      }
+      totalRot += deltaTheta; // accumulate
     }
 
     // Compute the net rotation and corresponding index
-- 
2.43.0


From 880930f8ab14013ba8c6818235fb26685d30f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 098/103] fix: vertex direction fields use a mass matrix that
 couples neighbouring vertices without transport, so that the result depends
 on the numbering of the mesh

---
 src/surface/direction_fields.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index 20b4110..6af1625 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -94,10 +94,10 @@ VertexData<Vector2> computeSmoothestVertexDirectionField(IntrinsicGeometryInterf
   SurfaceMesh& mesh = geometry.mesh;
 
   geometry.requireVertexIndices();
-  geometry.requireVertexGalerkinMassMatrix();
+  geometry.requireVertexLumpedMassMatrix();
 
   // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.vertexGalerkinMassMatrix.cast<std::complex<double>>();
+  SparseMatrix<std::complex<double>> massMatrix = geometry.vertexLumpedMassMatrix.cast<std::complex<double>>();
 
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeVertexConnectionLaplacian(geometry, nSym);
@@ -303,11 +303,11 @@ VertexData<Vector2> computeCurvatureAlignedVertexDirectionField(ExtrinsicGeometr
   size_t N = mesh.nVertices();
 
   geometry.requireVertexIndices();
-  geometry.requireVertexGalerkinMassMatrix();
+  geometry.requireVertexLumpedMassMatrix();
   geometry.requireVertexPrincipalCurvatureDirections();
 
   // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.vertexGalerkinMassMatrix.cast<std::complex<double>>();
+  SparseMatrix<std::complex<double>> massMatrix = geometry.vertexLumpedMassMatrix.cast<std::complex<double>>();
 
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeVertexConnectionLaplacian(geometry, nSym);
-- 
2.43.0


From 3f2a9bebe116887cff1cfd5ffd11df2cadae480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 099/103] fix: a saved mesh bundle recorded boundary loops
 relative to unused face capacity, so a mesh saved after edits was loaded with
 broken boundary halfedges

---
 src/surface/rich_surface_mesh_data.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/surface/rich_surface_mesh_data.cpp b/src/surface/rich_surface_mesh_data.cpp
index 50c8659..2f4b48f 100644
--- a/src/surface/rich_surface_mesh_data.cpp
+++ b/src/surface/rich_surface_mesh_data.cpp
@@ -136,6 +136,14 @@ void RichSurfaceMeshData::addMeshConnectivity() {
     return out;
   };
 
+  // Boundary loops are stored at the back of the face buffer, so their indices involve its capacity. The loaded mesh has
+  // no unused space between faces and boundary loops.
+  std::vector<size_t> heFaceArr(mesh->heFaceArr.begin(), mesh->heFaceArr.begin() + mesh->nHalfedgesFillCount);
+  size_t nFacesUnused = mesh->nFacesCapacityCount - mesh->nFacesFillCount - mesh->nBoundaryLoopsFillCount;
+  for (size_t& iF : heFaceArr) {
+    if (iF != INVALID_IND && iF >= mesh->nFacesFillCount) iF -= nFacesUnused;
+  }
+
   // clang-format off
 
   // Add the elements themselves
@@ -153,7 +161,7 @@ void RichSurfaceMeshData::addMeshConnectivity() {
 
   // Halfedge properties
   elemHalfedge.addProperty<uint32_t>("gc_internal_heNextArr", toSmallerVec(mesh->heNextArr.begin(), mesh->heNextArr.begin() + mesh->nHalfedgesFillCount));
-  elemHalfedge.addProperty<uint32_t>("gc_internal_heFaceArr", toSmallerVec(mesh->heFaceArr.begin(), mesh->heFaceArr.begin() + mesh->nHalfedgesFillCount));
+  elemHalfedge.addProperty<uint32_t>("gc_internal_heFaceArr", toSmallerVec(heFaceArr.begin(), heFaceArr.end()));
   elemHalfedge.addProperty<uint32_t>("gc_internal_heVertexArr", toSmallerVec(mesh->heVertexArr.begin(), mesh->heVertexArr.begin() + mesh->nHalfedgesFillCount));
   if(!mesh->usesImplicitTwin()) {
     elemHalfedge.addProperty<uint32_t>("gc_internal_heSiblingArr", toSmallerVec(mesh->heSiblingArr.begin(), mesh->heSiblingArr.begin() + mesh->nHalfedgesFillCount));
-- 
2.43.0


From 7091f44b5f0fc2a16ab6fbdba2c21c47000b7748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 100/103] fix: the normal of a face with five or more sides was
 not along its vector area, and pointed backwards on planar faces that are not
 convex

---
 .../surface/vertex_position_geometry.ipp      | 19 ++++++-------------
 src/surface/embedded_geometry_interface.cpp   | 19 ++++++-------------
 2 files changed, 12 insertions(+), 26 deletions(-)

diff --git a/include/geometrycentral/surface/vertex_position_geometry.ipp b/include/geometrycentral/surface/vertex_position_geometry.ipp
index 6e8d94a..69e1cd5 100644
--- a/include/geometrycentral/surface/vertex_position_geometry.ipp
+++ b/include/geometrycentral/surface/vertex_position_geometry.ipp
@@ -103,23 +103,16 @@ inline double VertexPositionGeometry::edgeCotanWeight(Edge e) const {
 
 // Face normal
 inline Vector3 VertexPositionGeometry::faceNormal(Face f) const {
-  // For general polygons, take the sum of the cross products at each corner
+  // For general polygons, take the vector area: the sum of the cross products along the edges, as seen from the first
+  // vertex
   Vector3 normalSum = Vector3::zero();
+  Vector3 pRoot = vertexPositions[f.halfedge().vertex()];
   for (Halfedge heF : f.adjacentHalfedges()) {
 
-    // Gather vertex positions for next three vertices
-    Halfedge he = heF;
-    Vector3 pA = vertexPositions[he.vertex()];
-    he = he.next();
-    Vector3 pB = vertexPositions[he.vertex()];
-    he = he.next();
-    Vector3 pC = vertexPositions[he.vertex()];
-
-    normalSum += cross(pB - pA, pC - pA);
+    Vector3 pA = vertexPositions[heF.vertex()];
+    Vector3 pB = vertexPositions[heF.next().vertex()];
 
-    // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-    // same
-    if (he.next() == heF) break;
+    normalSum += cross(pA - pRoot, pB - pRoot);
   }
 
   Vector3 normal = unit(normalSum);
diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index a32035b..47804e0 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -84,23 +84,16 @@ void EmbeddedGeometryInterface::computeFaceNormals() {
 
   for (Face f : mesh.faces()) {
 
-    // For general polygons, take the sum of the cross products at each corner
+    // For general polygons, take the vector area: the sum of the cross products along the edges, as seen from the first
+    // vertex
     Vector3 normalSum = Vector3::zero();
+    Vector3 pRoot = vertexPositions[f.halfedge().vertex()];
     for (Halfedge heF : f.adjacentHalfedges()) {
 
-      // Gather vertex positions for next three vertices
-      Halfedge he = heF;
-      Vector3 pA = vertexPositions[he.vertex()];
-      he = he.next();
-      Vector3 pB = vertexPositions[he.vertex()];
-      he = he.next();
-      Vector3 pC = vertexPositions[he.vertex()];
-
-      normalSum += cross(pB - pA, pC - pA);
+      Vector3 pA = vertexPositions[heF.vertex()];
+      Vector3 pB = vertexPositions[heF.next().vertex()];
 
-      // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-      // same
-      if (he.next() == heF) break;
+      normalSum += cross(pA - pRoot, pB - pRoot);
     }
 
     Vector3 normal = unit(normalSum);
-- 
2.43.0


From 6e661985cae7424ab196a10854a95786b7cbcade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 101/103] fix: tangent bases of faces and vertices failed on
 meshes with faces that are not triangles, and with them the polygon
 connection Laplacian and vector heat transport

---
 src/surface/embedded_geometry_interface.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index 47804e0..bec9f05 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -142,7 +142,10 @@ void EmbeddedGeometryInterface::computeFaceTangentBasis() {
     return;
   }
 
-  halfedgeVectorsInFaceQ.ensureHave();
+  // Halfedge vectors in faces are only defined on triangular meshes. On polygon meshes the x-axis is the projected
+  // direction of face.halfedge(), the same convention.
+  bool meshIsTriangular = mesh.isTriangular();
+  if (meshIsTriangular) halfedgeVectorsInFaceQ.ensureHave();
 
   for (Face f : mesh.faces()) {
     // TODO this implementation seems a bit silly...
@@ -156,6 +159,11 @@ void EmbeddedGeometryInterface::computeFaceTangentBasis() {
       Vector3 eVec = vertexPositions[heF.next().vertex()] - vertexPositions[heF.vertex()];
       eVec = eVec.removeComponent(N);
 
+      if (!meshIsTriangular) {
+        basisXSum = eVec;
+        break;
+      }
+
       double angle = halfedgeVectorsInFace[heF].arg();
       Vector3 eVecX = eVec.rotateAround(N, -angle);
 
@@ -190,7 +198,10 @@ void EmbeddedGeometryInterface::computeVertexTangentBasis() {
     return;
   }
 
-  halfedgeVectorsInVertexQ.ensureHave();
+  // Halfedge vectors in vertices are only defined on triangular meshes. On polygon meshes the x-axis is the projected
+  // direction of vertex.halfedge(), the same convention.
+  bool meshIsTriangular = mesh.isTriangular();
+  if (meshIsTriangular) halfedgeVectorsInVertexQ.ensureHave();
   for (Vertex v : mesh.vertices()) {
 
     // For general polygons, take the average of each edge vector projected to tangent plane
@@ -201,6 +212,11 @@ void EmbeddedGeometryInterface::computeVertexTangentBasis() {
       Vector3 eVec = vertexPositions[he.next().vertex()] - vertexPositions[he.vertex()];
       eVec = eVec.removeComponent(N);
 
+      if (!meshIsTriangular) {
+        basisXSum = eVec;
+        break;
+      }
+
       // TODO can surely do this with less trig
       double angle = halfedgeVectorsInVertex[he].arg();
       Vector3 eVecX = eVec.rotateAround(N, -angle);
-- 
2.43.0


From 6176081f9aeaffee8ad9c6deac2af387a9e5486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 102/103] fix: the polygon gradient matrix gave minus the
 gradient, so signed distance on polygon meshes had the opposite sign

---
 src/surface/embedded_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index bec9f05..04bc66f 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -891,7 +891,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::polygonPerFaceGradientMatrix(const Fa
   double A = faceAreas[f];
   Vector3 n = faceNormals[f];
   Eigen::Vector3d N = {n[0], n[1], n[2]};
-  return 1. / A * bracket(N) * polygonCoGradientMatrix(f);
+  return -1. / A * bracket(N) * polygonCoGradientMatrix(f);
 }
 
 Eigen::MatrixXd EmbeddedGeometryInterface::polygonCoGradientMatrix(const Face& f) {
-- 
2.43.0


From 38945bc6add7b368f7c5dd4613b4ec98ca4d6c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 103/103] fix: the immediate mean curvature normal of a vertex
 missed or repeated edges on meshes that are not oriented manifolds

---
 .../geometrycentral/surface/vertex_position_geometry.ipp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/vertex_position_geometry.ipp b/include/geometrycentral/surface/vertex_position_geometry.ipp
index 69e1cd5..03a1cae 100644
--- a/include/geometrycentral/surface/vertex_position_geometry.ipp
+++ b/include/geometrycentral/surface/vertex_position_geometry.ipp
@@ -196,9 +196,9 @@ inline double VertexPositionGeometry::vertexPrincipalCurvature(int whichCurvatur
 inline Vector3 VertexPositionGeometry::vertexDualMeanCurvatureNormal(Vertex v) const {
   // WARNING: Logic duplicated between cached and immediate version
   Vector3 hN = Vector3::zero();
-  for (Halfedge he : v.outgoingHalfedges()) {
-    double w = edgeCotanWeight(he.edge());
-    hN += w * (vertexPositions[v] - vertexPositions[he.tipVertex()]) / 2.;
+  for (Edge e : v.adjacentEdges()) { // (on a general surface mesh not every edge has a halfedge going out of v)
+    double w = edgeCotanWeight(e);
+    hN += w * (vertexPositions[v] - vertexPositions[e.otherVertex(v)]) / 2.;
   }
   return hN;
 }
-- 
2.43.0

