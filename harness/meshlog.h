// Projection of a mesh to the state of specs/ManifoldMesh.tla, read through the public interface only.
#pragma once
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh.h"
#include "vt.h"
namespace vt {
using namespace geometrycentral;
using namespace geometrycentral::surface;

inline long id(size_t i) { return i == INVALID_IND ? 0 : (i > 1000000 ? 999999 : (long)i + 1); }
template <class T>
long eid(T e) {
  return id(e.getIndex());
}
inline long faceCode(Halfedge h) {
  Face f = h.face();
  if (f.getIndex() == INVALID_IND) return 0;
  if (f.isBoundaryLoop()) return -eid(f.asBoundaryLoop());
  return eid(f);
}
inline void put(std::vector<long>& v, long i, long x) {
  if (i < 1 || i > 100000) return;
  if ((long)v.size() < i) v.resize(i, 0);
  v[i - 1] = x;
}

inline J meshState(SurfaceMesh& mesh) {
  std::vector<long> H, V, E, F, B, nx, tw, tl, ed, fc, vh, eh, fh, bh;
  const size_t LIM = 100000;
  for (Halfedge h : mesh.halfedges()) {
    long i = eid(h);
    H.push_back(i);
    put(nx, i, eid(h.next()));
    put(tw, i, eid(h.twin()));
    put(tl, i, eid(h.vertex()));
    put(ed, i, eid(h.edge()));
    put(fc, i, faceCode(h));
    if (H.size() > LIM) break;
  }
  for (Vertex v : mesh.vertices()) V.push_back(eid(v)), put(vh, eid(v), eid(v.halfedge()));
  for (Edge v : mesh.edges()) E.push_back(eid(v)), put(eh, eid(v), eid(v.halfedge()));
  for (Face v : mesh.faces()) F.push_back(eid(v)), put(fh, eid(v), eid(v.halfedge()));
  for (BoundaryLoop v : mesh.boundaryLoops()) B.push_back(eid(v)), put(bh, eid(v), eid(v.halfedge()));
  J j;
  j("H", H)("V", V)("E", E)("F", F)("B", B)("nx", nx)("tw", tw)("tl", tl)("ed", ed)("fc", fc)("vh", vh)("eh", eh)(
      "fh", fh)("bh", bh)("comp", mesh.isCompressed());
  return j;
}

inline J meshCounts(ManifoldSurfaceMesh& mesh) {
  J c;
  c("nV", mesh.nVertices())("nE", mesh.nEdges())("nF", mesh.nFaces())("nB", mesh.nBoundaryLoops())("nH", mesh.nHalfedges())(
      "nIH", mesh.nInteriorHalfedges())("nEH", mesh.nExteriorHalfedges())("nC", mesh.nCorners())("nIV", mesh.nInteriorVertices())(
      "nCC", mesh.nConnectedComponents())("chi", mesh.eulerCharacteristic())("genus", mesh.genus())("bdry", mesh.hasBoundary())(
      "tri", mesh.isTriangular())("comp", mesh.isCompressed());
  std::vector<long> a;
  for (Halfedge h : mesh.interiorHalfedges()) a.push_back(eid(h));
  c("iIH", a);
  a.clear();
  for (Halfedge h : mesh.exteriorHalfedges()) a.push_back(eid(h));
  c("iEH", a);
  a.clear();
  for (Corner h : mesh.corners()) a.push_back(eid(h.halfedge()));
  c("iC", a);
  {
    auto ind = mesh.getVertexIndices();
    a.clear();
    for (Vertex v : mesh.vertices()) a.push_back((long)ind[v]);
    c("dV", a);
  }
  {
    auto ind = mesh.getEdgeIndices();
    a.clear();
    for (Edge v : mesh.edges()) a.push_back((long)ind[v]);
    c("dE", a);
  }
  {
    auto ind = mesh.getFaceIndices();
    a.clear();
    for (Face v : mesh.faces()) a.push_back((long)ind[v]);
    c("dF", a);
  }
  {
    auto ind = mesh.getHalfedgeIndices();
    a.clear();
    for (Halfedge v : mesh.halfedges()) a.push_back((long)ind[v]);
    c("dH", a);
  }
  {
    auto ind = mesh.getCornerIndices();
    a.clear();
    for (Corner v : mesh.corners()) a.push_back((long)ind[v]);
    c("dC", a);
  }
  {
    auto ind = mesh.getBoundaryLoopIndices();
    a.clear();
    for (BoundaryLoop v : mesh.boundaryLoops()) a.push_back((long)ind[v]);
    c("dB", a);
  }
  {
    auto ind = mesh.getInteriorVertexIndices();
    a.clear();
    for (Vertex v : mesh.vertices()) a.push_back(ind[v] == INVALID_IND ? -1 : (long)ind[v]);
    c("dIV", a);
  }
  {
    auto st = mesh.getVertexBoundaryStatus();
    std::vector<bool> b;
    for (Vertex v : mesh.vertices()) b.push_back(st[v]);
    c("vbs", b);
  }
  {
    bool ok = mesh.isManifold() && mesh.isEdgeManifold() && mesh.isOriented();
    auto a1 = mesh.getVertexManifoldStatus();
    auto a2 = mesh.getEdgeManifoldStatus();
    auto a3 = mesh.getEdgeOrientedStatus();
    for (Vertex v : mesh.vertices()) ok = ok && a1[v];
    for (Edge v : mesh.edges()) ok = ok && a2[v] && a3[v];
    c("man", ok);
  }
  c("szH", mesh.halfedgeIndexSize())("szV", mesh.vertexIndexSize())("szE", mesh.edgeIndexSize())("szF", mesh.faceIndexSize())(
      "szB", mesh.boundaryLoopIndexSize());
  c("caH", mesh.nHalfedgesCapacity())("caV", mesh.nVerticesCapacity())("caE", mesh.nEdgesCapacity())(
      "caF", mesh.nFacesCapacity())("caB", mesh.nBoundaryLoopsCapacity());
  return c;
}
} // namespace vt
