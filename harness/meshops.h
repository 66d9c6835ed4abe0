// The edits of ManifoldSurfaceMesh as data, so that histories can be generated, enumerated and replayed.
#pragma once
#include "meshlog.h"
namespace vt {

struct Op {
  std::string name;
  std::vector<long> a; // 1-based identifiers (boundary loops negative)
};

inline Halfedge heById(SurfaceMesh& m, long i) { return Halfedge(&m, (size_t)i - 1); }
inline Edge edById(SurfaceMesh& m, long i) { return Edge(&m, (size_t)i - 1); }
inline Vertex veById(SurfaceMesh& m, long i) { return Vertex(&m, (size_t)i - 1); }
inline Face faById(SurfaceMesh& m, long i) { return Face(&m, (size_t)i - 1); }

struct OpResult {
  std::string x; // exception message, empty if none
  std::vector<long> r;
};

inline bool simplicialStar(Vertex v) {
  std::vector<Vertex> nb;
  bool bdry = false;
  size_t n = 0;
  for (Halfedge h : v.outgoingHalfedges()) {
    n++;
    if (h.isInterior()) {
      if (!h.face().isTriangle()) return false;
    } else
      bdry = true;
    Vertex w = h.twin().vertex();
    if (w == v) return false;
    for (Vertex u : nb)
      if (u == w) return false;
    nb.push_back(w);
  }
  return n >= (bdry ? 2u : 3u);
}
// collapseEdgeTriangular() documents that it assumes a triangular simplicial complex around the collapse
inline bool collapseDomain(Edge e) {
  Halfedge h = e.halfedge();
  if (!h.face().isTriangle()) return true; // must be refused
  if (!e.isBoundary() && !h.twin().face().isTriangle()) return true;
  for (Vertex v : {h.vertex(), h.twin().vertex()}) {
    if (!simplicialStar(v)) return false;
    for (Halfedge o : v.outgoingHalfedges())
      if (!simplicialStar(o.twin().vertex())) return false;
  }
  return true;
}

inline OpResult applyOp(ManifoldSurfaceMesh& m, const Op& op) {
  OpResult R;
  try {
    const std::string& n = op.name;
    if (n == "flip")
      R.r = {m.flip(edById(m, op.a[0]), op.a[1] == 1) ? 1 : 0};
    else if (n == "insVE")
      R.r = {eid(m.insertVertexAlongEdge(edById(m, op.a[0])))};
    else if (n == "split")
      R.r = {eid(m.splitEdgeTriangular(edById(m, op.a[0])))};
    else if (n == "conn")
      R.r = {eid(m.connectVertices(heById(m, op.a[0]), heById(m, op.a[1])))};
    else if (n == "insV")
      R.r = {eid(m.insertVertex(faById(m, op.a[0])))};
    else if (n == "tri") {
      std::vector<Face> fs =
          m.triangulate(op.a[0] > 0 ? faById(m, op.a[0]) : BoundaryLoop(&m, (size_t)(-op.a[0] - 1)).asFace());
      for (Face f : fs) R.r.push_back(eid(f));
    } else if (n == "collapse")
      R.r = {eid(m.collapseEdgeTriangular(edById(m, op.a[0])))};
    else if (n == "rmE")
      R.r = {eid(m.removeEdge(edById(m, op.a[0])))};
    else if (n == "rmV")
      R.r = {eid(m.removeVertex(veById(m, op.a[0])))};
    else if (n == "rmF")
      R.r = {m.removeFaceAlongBoundary(faById(m, op.a[0])) ? 1 : 0};
    else if (n == "sep") {
      auto t = m.separateEdge(edById(m, op.a[0]));
      R.r = {eid(std::get<0>(t)), eid(std::get<1>(t))};
    } else if (n == "switch")
      R.r = {eid(m.switchHalfedgeSides(edById(m, op.a[0])))};
    else if (n == "compress")
      m.compress();
    else
      abort();
  } catch (const std::exception& e) {
    R.x = e.what();
    if (R.x.empty()) R.x = "exception";
    R.x = R.x.substr(0, 60);
  }
  return R;
}

inline size_t boundarySides(Face f) {
  size_t n = 0;
  for (Halfedge h : f.adjacentHalfedges())
    if (!h.twin().isInterior()) n++;
  return n;
}

// every edit with every argument
inline std::vector<Op> allOps(ManifoldSurfaceMesh& m, const std::string& kinds = "") {
  std::vector<Op> L;
  auto want = [&](const char* k) { return kinds.empty() || (kinds.find(std::string(",") + k + ",") != std::string::npos); };
  for (Edge e : m.edges()) {
    long i = eid(e);
    if (want("flip")) {
      L.push_back({"flip", {i, 1}});
      L.push_back({"flip", {i, 0}});
    }
    if (want("insVE")) L.push_back({"insVE", {i}});
    if (want("split")) L.push_back({"split", {i}});
    if (want("collapse") && collapseDomain(e)) L.push_back({"collapse", {i}});
    if (want("rmE")) L.push_back({"rmE", {i}});
    if (want("sep")) L.push_back({"sep", {i}});
    if (want("switch") && !e.isBoundary()) L.push_back({"switch", {i}});
  }
  for (Face f : m.faces()) {
    if (want("insV")) L.push_back({"insV", {eid(f)}});
    if (want("tri")) L.push_back({"tri", {eid(f)}});
    if (want("rmF")) L.push_back({"rmF", {eid(f)}});
    if (want("conn"))
      for (Halfedge a : f.adjacentHalfedges())
        for (Halfedge b : f.adjacentHalfedges()) L.push_back({"conn", {eid(a), eid(b)}});
  }
  if (want("conn")) // halfedges of different faces
    for (Edge e : m.edges())
      if (!e.isBoundary()) L.push_back({"conn", {eid(e.halfedge()), eid(e.halfedge().twin())}});
  for (BoundaryLoop b : m.boundaryLoops())
    if (want("tri")) L.push_back({"tri", {-eid(b)}});
  for (Vertex v : m.vertices())
    if (want("rmV")) L.push_back({"rmV", {eid(v)}});
  if (want("compress")) L.push_back({"compress", {}});
  return L;
}

inline Op randomOp(ManifoldSurfaceMesh& m, Rng& rng, const std::vector<std::pair<std::string, int>>& weights, size_t maxHe) {
  for (int attempt = 0; attempt < 200; attempt++) {
    int tot = 0;
    for (auto& w : weights) tot += w.second;
    int x = (int)rng.below(tot);
    std::string k;
    for (auto& w : weights) {
      x -= w.second;
      if (x < 0) {
        k = w.first;
        break;
      }
    }
    bool big = m.nHalfedges() > maxHe;
    if (big && (k == "insVE" || k == "split" || k == "conn" || k == "insV" || k == "sep")) continue;
    if (k == "compress") return {"compress", {}};
    if (k == "rmV") {
      std::vector<long> c;
      for (Vertex v : m.vertices()) c.push_back(eid(v));
      if (c.empty()) continue;
      return {k, {rng.pick(c)}};
    }
    if (k == "insV" || k == "tri" || k == "rmF" || k == "conn") {
      std::vector<long> c;
      for (Face v : m.faces()) c.push_back(eid(v));
      if (c.empty()) continue;
      if (k == "rmF" && rng.chance(80)) { // mostly boundary faces
        c.clear();
        for (Face f : m.faces())
          if (boundarySides(f) > 0) c.push_back(eid(f));
        if (c.empty()) continue;
      }
      if ((k == "conn" || k == "tri") && rng.chance(90)) {
        c.clear();
        for (Face f : m.faces())
          if (f.degree() > 3) c.push_back(eid(f));
        if (c.empty()) continue;
      }
      long f = rng.pick(c);
      if (k == "conn") {
        std::vector<long> hs;
        for (Halfedge h : faById(m, f).adjacentHalfedges()) hs.push_back(eid(h));
        long a = rng.pick(hs), b = rng.pick(hs);
        return {k, {a, b}};
      }
      return {k, {f}};
    }
    std::vector<long> c;
    for (Edge e : m.edges()) {
      if (k == "switch" && e.isBoundary()) continue;
      if (k == "collapse" && !collapseDomain(e)) continue;
      c.push_back(eid(e));
    }
    if (c.empty()) continue;
    long e = rng.pick(c);
    if (k == "flip") return {k, {e, rng.chance(40) ? 1 : 0}};
    return {k, {e}};
  }
  return {"compress", {}};
}
} // namespace vt
