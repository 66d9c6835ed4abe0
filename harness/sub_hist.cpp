// Records subdivisions of small (edited, possibly uncompressed) meshes with integer positions, for specs/SubdivisionTrace.tla (C21).
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/subdivide.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "meshops.h"
#include "seeds.h"
#include <memory>
using namespace vt;
static const double LSC = 1000; // positions are recorded in thousandths

static std::vector<std::array<long, 3>> positions(ManifoldSurfaceMesh& m, VertexPositionGeometry& g, double sc) {
  std::vector<std::array<long, 3>> r;
  for (Vertex v : m.vertices()) {
    Vector3 p = g.inputVertexPositions[v];
    std::array<long, 3> a;
    for (int c = 0; c < 3; c++) {
      double x = std::round(p[c] * sc);
      a[c] = std::isfinite(x) && std::abs(x) < 2e5 ? (long)x : 200000;
    }
    while ((long)r.size() < eid(v)) r.push_back({{0, 0, 0}});
    r[eid(v) - 1] = a;
  }
  return r;
}
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long shard = A.num("shard", 0), shards = A.num("shards", 1), iters = A.num("iters", 100);
  size_t maxHe = (size_t)A.num("maxhe", 60);
  auto seeds = seedMeshes();
  for (long it = shard; it < iters; it += shards) {
    Rng rng((uint64_t)A.num("seed", 1) * 1000003 + it);
    auto& S = seeds[(size_t)it % seeds.size()];
    int kind = (int)((it / (long)seeds.size()) % 3);
    long edits = (it / (long)seeds.size()) < 3 ? 0 : (long)rng.below(7);
    auto m = std::unique_ptr<ManifoldSurfaceMesh>(new ManifoldSurfaceMesh(S.second));
    if (kind == 2 && !m->isTriangular())
      for (Face f : m->faces()) m->triangulate(f);
    if (m->nHalfedges() > maxHe) edits = 0;
    std::vector<std::pair<std::string, int>> w = {{"flip", 20}, {"split", 10}, {"collapse", 14}, {"rmF", 8}, {"insV", 4}, {"switch", 5}};
    if (kind != 2)
      for (auto x : {"insVE", "conn", "rmE", "tri", "rmV", "sep", "compress"}) w.push_back({x, 8});
    J ops;
    std::vector<std::string> names;
    for (long k = 0; k < edits; k++) {
      Op op = randomOp(*m, rng, w, maxHe - 6);
      auto copy = m->copy();
      applyOp(*m, op);
      if (m->nFaces() == 0) m = std::move(copy);
      names.push_back(op.name);
    }
    if (kind == 2 && !m->isTriangular()) continue;
    if (m->nHalfedges() > 100) continue;
    VertexPositionGeometry g(*m);
    for (Vertex v : m->vertices())
      g.inputVertexPositions[v] = Vector3{(double)rng.range(-20, 20), (double)rng.range(-20, 20), (double)rng.range(-20, 20)};
    bool withLen = rng.chance(50), withMM = rng.chance(50);
    if (withLen) g.requireEdgeLengths();
    J d;
    const char* kn[] = {"linear", "cc", "loop"};
    J j;
    j("op", "init")("src", S.first)("edits", names)("kind", kn[kind])("s", meshState(*m))("pos", positions(*m, g, 1));
    long p = emit(j);
    d("of", kn[kind])("src", S.first)("p", p);
    std::string dd = d.str();
    about(dd.substr(1, dd.size() - 2));
    cpuLimit(5);
    std::string x;
    try {
      if (kind == 0) linearSubdivide(*m, g);
      if (kind == 1) catmullClarkSubdivide(*m, g);
      if (kind == 2) {
        if (withMM) {
          MutationManager mm(*m, g);
          loopSubdivide(*m, g, mm);
        } else
          loopSubdivide(*m, g);
      }
    } catch (std::exception& e) {
      x = e.what();
      if (x.empty()) x = "exception";
      x = x.substr(0, 60);
    }
    bool fresh = true;
    if (withLen && x.empty())
      for (Edge e : m->edges())
        fresh = fresh && near(g.edgeLengths[e], (g.inputVertexPositions[e.firstVertex()] - g.inputVertexPositions[e.secondVertex()]).norm());
    J k;
    k("op", kn[kind])("p", p)("x", x)("fresh", fresh)("s", meshState(*m))("pos", positions(*m, g, LSC));
    emit(k);
  }
  vt::done();
  _exit(0);
}
