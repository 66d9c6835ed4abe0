// Small triangle meshes, possibly changed by a few random flips, splits and insertions, whose faces have three different corners.
#pragma once
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "seeds.h"
#include "vt.h"
#include <memory>
namespace vt {
using namespace geometrycentral;
using namespace geometrycentral::surface;
inline bool properFaces(ManifoldSurfaceMesh& m) {
  for (Face f : m.faces()) {
    Halfedge h = f.halfedge();
    Vertex a = h.vertex(), b = h.next().vertex(), c = h.next().next().vertex();
    if (a == b || b == c || a == c) return false;
  }
  return true;
}
inline std::unique_ptr<ManifoldSurfaceMesh> triMesh(const Polys& P) {
  std::unique_ptr<ManifoldSurfaceMesh> m(new ManifoldSurfaceMesh(P));
  std::vector<Face> fs;
  for (Face f : m->faces()) fs.push_back(f);
  for (Face f : fs)
    if (f.degree() > 3) m->triangulate(f);
  return m;
}
inline std::unique_ptr<ManifoldSurfaceMesh> randomTriMesh(Rng& R, int nOps, size_t maxV = 14) {
  auto S = seedMeshes();
  while (true) {
    std::unique_ptr<ManifoldSurfaceMesh> m = triMesh(R.pick(S).second);
    for (int k = 0; k < nOps; k++) {
      int o = R.range(0, 5);
      if (o < 3) {
        Edge e = m->edge((size_t)R.range(0, (int)m->nEdges() - 1));
        if (!e.isBoundary()) {
          m->flip(e, false);
          if (!properFaces(*m)) m->flip(e, false), m->flip(e, false), m->flip(e, false);
        }
      } else if (m->nVertices() < maxV) {
        if (o == 3)
          m->insertVertex(m->face((size_t)R.range(0, (int)m->nFaces() - 1)));
        else if (o == 4)
          m->splitEdgeTriangular(m->edge((size_t)R.range(0, (int)m->nEdges() - 1)));
      }
    }
    m->compress();
    if (properFaces(*m)) return m;
  }
}
inline void putTriMesh(J& j, ManifoldSurfaceMesh& m) {
  std::vector<std::vector<long>> fv, fe, et;
  for (Face f : m.faces()) {
    std::vector<long> a, b;
    for (Halfedge h : f.adjacentHalfedges()) {
      a.push_back((long)h.vertex().getIndex() + 1);
      b.push_back((long)h.edge().getIndex() + 1);
    }
    fv.push_back(a), fe.push_back(b);
  }
  for (Edge e : m.edges())
    et.push_back({(long)e.halfedge().vertex().getIndex() + 1, (long)e.halfedge().tipVertex().getIndex() + 1});
  j("fv", fv)("fe", fe)("et", et)("nv", m.nVertices());
}
} // namespace vt
