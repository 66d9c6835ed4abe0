// Records histories of requests, releases, purges, input changes and refreshes of the cached quantities of a geometry,
// for specs/QuantityTrace.tla. A value is logged as an identifier: equal identifiers mean equal values (to rounding).
//   mode=pairs   one history per pair of quantities (request a, purge, request b, release a, purge, refresh, ...)
//   mode=random  long random histories
#include "geometrycentral/pointcloud/point_position_frame_geometry.h"
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include "geometrycentral/pointcloud/point_position_normal_geometry.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "seeds.h"
#include "vt.h"
#include <complex>
#include <memory>
using namespace vt;
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace geometrycentral::pointcloud;

typedef std::vector<double> Val;
// ---- flattening
static void fl(Val& o, double x) { o.push_back(x); }
static void fl(Val& o, size_t x) { o.push_back((double)x); }
static void fl(Val& o, const Vector2& x) { o.push_back(x.x), o.push_back(x.y); }
static void fl(Val& o, const Vector3& x) { o.push_back(x.x), o.push_back(x.y), o.push_back(x.z); }
static void fl(Val& o, const Point& x) { o.push_back((double)x.getIndex()); }
template <class T, size_t N>
static void fl(Val& o, const std::array<T, N>& x) {
  for (auto& y : x) fl(o, y);
}
template <class T>
static void fl(Val& o, const std::vector<T>& x) {
  o.push_back((double)x.size());
  for (auto& y : x) fl(o, y);
}
static void sparse(Val& o, long r, long c, std::vector<std::array<double, 4>>& t) {
  o.push_back((double)r), o.push_back((double)c);
  std::sort(t.begin(), t.end());
  for (auto& e : t)
    if (std::abs(e[2]) > 1e-12 || std::abs(e[3]) > 1e-12)
      for (double x : e) o.push_back(x);
}
static void fl(Val& o, const Eigen::SparseMatrix<double>& m) {
  std::vector<std::array<double, 4>> t;
  for (int k = 0; k < m.outerSize(); k++)
    for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it)
      t.push_back({(double)it.row(), (double)it.col(), it.value(), 0.});
  sparse(o, m.rows(), m.cols(), t);
}
static void fl(Val& o, const Eigen::SparseMatrix<std::complex<double>>& m) {
  std::vector<std::array<double, 4>> t;
  for (int k = 0; k < m.outerSize(); k++)
    for (Eigen::SparseMatrix<std::complex<double>>::InnerIterator it(m, k); it; ++it)
      t.push_back({(double)it.row(), (double)it.col(), it.value().real(), it.value().imag()});
  sparse(o, m.rows(), m.cols(), t);
}
template <class El, class T>
static void fl(Val& o, const MeshData<El, T>& d, size_t n) {
  if (d.size() == 0) return;
  o.push_back((double)n);
  auto* m = d.getMesh();
  for (El e : iterateElements<El>(m)) fl(o, d[e]);
}

struct Q {
  std::string name;
  std::function<void()> req, unreq;
  std::function<Val()> get;
};
struct Geo { // one geometry with its quantities
  std::vector<Q> qs;
  std::shared_ptr<void> hold;
  std::function<void()> refresh, purge;
  Q* find(const std::string& n) {
    for (Q& q : qs)
      if (q.name == n) return &q;
    return nullptr;
  }
};
#define QM(Name, member)                                                                                               \
  s.qs.push_back({#Name, [g] { g->require##Name(); }, [g] { g->unrequire##Name(); }, [g] {                             \
                    Val v;                                                                                             \
                    fl(v, g->member, 0);                                                                               \
                    return v;                                                                                          \
                  }});
#define QS(Name, member)                                                                                               \
  s.qs.push_back({#Name, [g] { g->require##Name(); }, [g] { g->unrequire##Name(); }, [g] {                             \
                    Val v;                                                                                             \
                    fl(v, g->member);                                                                                  \
                    return v;                                                                                          \
                  }});
template <class G>
static void addBase(Geo& s, G* g, bool manifold) {
  QM(VertexIndices, vertexIndices)
  QM(InteriorVertexIndices, interiorVertexIndices)
  QM(EdgeIndices, edgeIndices)
  QM(HalfedgeIndices, halfedgeIndices)
  QM(CornerIndices, cornerIndices)
  QM(FaceIndices, faceIndices)
  if (manifold) QM(BoundaryLoopIndices, boundaryLoopIndices)
  QM(EdgeLengths, edgeLengths)
  QS(MeshLengthScale, meshLengthScale)
}
template <class G>
static void addIntrinsic(Geo& s, G* g, bool manifold) {
  QM(FaceAreas, faceAreas)
  QM(VertexDualAreas, vertexDualAreas)
  QM(CornerAngles, cornerAngles)
  QM(VertexAngleSums, vertexAngleSums)
  QM(CornerScaledAngles, cornerScaledAngles)
  QM(VertexGaussianCurvatures, vertexGaussianCurvatures)
  QM(FaceGaussianCurvatures, faceGaussianCurvatures)
  QM(HalfedgeCotanWeights, halfedgeCotanWeights)
  QM(EdgeCotanWeights, edgeCotanWeights)
  QS(ShapeLengthScale, shapeLengthScale)
  QM(HalfedgeVectorsInFace, halfedgeVectorsInFace)
  QM(TransportVectorsAcrossHalfedge, transportVectorsAcrossHalfedge)
  QS(CotanLaplacian, cotanLaplacian)
  QS(VertexLumpedMassMatrix, vertexLumpedMassMatrix)
  QS(VertexGalerkinMassMatrix, vertexGalerkinMassMatrix)
  QS(FaceGalerkinMassMatrix, faceGalerkinMassMatrix)
  QS(CrouzeixRaviartLaplacian, crouzeixRaviartLaplacian)
  QS(CrouzeixRaviartMassMatrix, crouzeixRaviartMassMatrix)
  QS(CrouzeixRaviartConnectionLaplacian, crouzeixRaviartConnectionLaplacian)
  if (manifold) {
    QM(HalfedgeVectorsInVertex, halfedgeVectorsInVertex)
    QM(TransportVectorsAlongHalfedge, transportVectorsAlongHalfedge)
    QS(VertexConnectionLaplacian, vertexConnectionLaplacian)
    QS(FaceConnectionLaplacian, faceConnectionLaplacian)
    s.qs.push_back({"DECOperators", [g] { g->requireDECOperators(); }, [g] { g->unrequireDECOperators(); }, [g] {
                      Val v;
                      for (auto* m : {&g->hodge0, &g->hodge0Inverse, &g->hodge1, &g->hodge1Inverse, &g->hodge2,
                                      &g->hodge2Inverse, &g->d0, &g->d1})
                        fl(v, *m);
                      return v;
                    }});
  }
}
template <class G>
static void addEmbedded(Geo& s, G* g, bool tri, bool manifold) {
  QM(VertexPositions, vertexPositions)
  QM(FaceNormals, faceNormals)
  if (manifold) QM(EdgeDihedralAngles, edgeDihedralAngles)
  if (tri) {
    QM(VertexNormals, vertexNormals)
    QM(FaceTangentBasis, faceTangentBasis)
    QM(VertexDualMeanCurvatureNormals, vertexDualMeanCurvatureNormals)
    if (manifold) {
      QM(VertexTangentBasis, vertexTangentBasis)
      QM(VertexMeanCurvatures, vertexMeanCurvatures)
      QM(VertexMinPrincipalCurvatures, vertexMinPrincipalCurvatures)
      QM(VertexMaxPrincipalCurvatures, vertexMaxPrincipalCurvatures)
      QM(VertexPrincipalCurvatureDirections, vertexPrincipalCurvatureDirections)
      QM(FacePrincipalCurvatureDirections, facePrincipalCurvatureDirections)
    }
  }
  if (manifold) {
    QS(SimplePolygonLaplacian, simplePolygonLaplacian)
    QS(SimplePolygonVertexGalerkinMassMatrix, simplePolygonVertexGalerkinMassMatrix)
    QS(SimplePolygonVertexLumpedMassMatrix, simplePolygonVertexLumpedMassMatrix)
    QS(PolygonLaplacian, polygonLaplacian)
    QS(PolygonGradientMatrix, polygonGradientMatrix)
    QS(PolygonDivergenceMatrix, polygonDivergenceMatrix)
    QS(PolygonVertexLumpedMassMatrix, polygonVertexLumpedMassMatrix)
    if (tri) QS(PolygonVertexConnectionLaplacian, polygonVertexConnectionLaplacian) // (refused on larger faces)
    s.qs.push_back({"PolygonDECOperators", [g] { g->requirePolygonDECOperators(); },
                    [g] { g->unrequirePolygonDECOperators(); }, [g] {
                      Val v;
                      for (auto* m : {&g->polygonHodge0, &g->polygonHodge0Inverse, &g->polygonHodge1,
                                      &g->polygonHodge2, &g->polygonHodge2Inverse, &g->polygonD0, &g->polygonD1})
                        fl(v, *m);
                      return v;
                    }});
  }
}
template <class G>
static void addCloud(Geo& s, G* g) {
  QM(PointIndices, pointIndices)
  s.qs.push_back({"Neighbors", [g] { g->requireNeighbors(); }, [g] { g->unrequireNeighbors(); }, [g] {
                    Val v;
                    if (g->neighbors) fl(v, g->neighbors->neighbors, 0);
                    return v;
                  }});
  QM(Normals, normals)
  QM(TangentBasis, tangentBasis)
  QM(TangentCoordinates, tangentCoordinates)
  QM(TangentTransport, tangentTransport)
  s.qs.push_back(
      {"TuftedTriangulation", [g] { g->requireTuftedTriangulation(); }, [g] { g->unrequireTuftedTriangulation(); }, [g] {
         Val v;
         if (g->tuftedMesh && g->tuftedGeom) {
           for (Face f : g->tuftedMesh->faces())
             for (Vertex x : f.adjacentVertices()) fl(v, x.getIndex());
           fl(v, g->tuftedGeom->inputEdgeLengths, 0);
         }
         return v;
       }});
  QS(Laplacian, laplacian)
  QS(ConnectionLaplacian, connectionLaplacian)
  QS(Gradient, gradient)
}

// ---- identifiers of values
static std::map<std::string, std::vector<Val>> seen;
static bool same(const Val& a, const Val& b) {
  if (a.size() != b.size()) return false;
  double s = 1;
  for (double x : a)
    if (std::isfinite(x)) s = std::max(s, std::abs(x));
  for (size_t i = 0; i < a.size(); i++) {
    if (std::isnan(a[i]) && std::isnan(b[i])) continue;
    if (a[i] == b[i]) continue;
    if (!(std::abs(a[i] - b[i]) <= 1e-8 * s)) return false;
  }
  return true;
}
static long idOf(const std::string& q, const Val& v) {
  auto& s = seen[q];
  for (size_t i = 0; i < s.size(); i++)
    if (same(s[i], v)) return (long)i + 1;
  s.push_back(v);
  return (long)s.size();
}

// ---- the worlds
struct World {
  bool isCloud = false, lengths = false, tri = true, manifold = true;
  int cloudKind = 0;
  std::unique_ptr<ManifoldSurfaceMesh> mm;
  std::unique_ptr<SurfaceMesh> gm;
  SurfaceMesh* mesh = nullptr;
  std::unique_ptr<PointCloud> cloud;
  std::unique_ptr<PointData<Vector3>> cpos, cnrm;
  VertexPositionGeometry* vg = nullptr;
  EdgeLengthGeometry* eg = nullptr;
  PointPositionGeometry* pg = nullptr;
  Geo g;
  Rng R{1};
  std::vector<int> cnt;

  // the geometry the current inputs describe, newly built (all = with its own copies)
  Geo build(bool first) {
    Geo s;
    if (isCloud) {
      std::shared_ptr<PointPositionGeometry> h;
      const PointData<Vector3>& P = first ? *cpos : pg->positions;
      if (cloudKind == 0) h.reset(new PointPositionGeometry(*cloud, P));
      if (cloudKind == 1) h.reset(new PointPositionNormalGeometry(*cloud, P, first ? *cnrm : pg->normals));
      if (cloudKind == 2) {
        PointData<std::array<Vector3, 3>> F(*cloud);
        for (Point p : cloud->points()) {
          if (first) {
            Vector3 N = unit((*cnrm)[p]);
            auto B = N.buildTangentBasis();
            F[p] = {B[0], B[1], N};
          } else
            F[p] = {pg->tangentBasis[p][0], pg->tangentBasis[p][1], pg->normals[p]};
        }
        h.reset(new PointPositionFrameGeometry(*cloud, P, F));
      }
      h->kNeighborSize = 6;
      auto* g = h.get();
      addCloud(s, g);
      s.hold = h;
      s.refresh = [g] { g->refreshQuantities(); };
      s.purge = [g] { g->purgeQuantities(); };
      if (first) pg = g;
    } else if (lengths) {
      std::shared_ptr<EdgeLengthGeometry> h(new EdgeLengthGeometry(*mesh, first ? *elen : eg->inputEdgeLengths));
      auto* g = h.get();
      addBase(s, g, manifold);
      if (tri) addIntrinsic(s, g, manifold);
      s.hold = h;
      s.refresh = [g] { g->refreshQuantities(); };
      s.purge = [g] { g->purgeQuantities(); };
      if (first) eg = g;
    } else {
      std::shared_ptr<VertexPositionGeometry> h(
          new VertexPositionGeometry(*mesh, first ? *vpos : vg->inputVertexPositions));
      auto* g = h.get();
      addBase(s, g, manifold);
      if (tri) addIntrinsic(s, g, manifold);
      addEmbedded(s, g, tri, manifold);
      s.hold = h;
      s.refresh = [g] { g->refreshQuantities(); };
      s.purge = [g] { g->purgeQuantities(); };
      if (first) vg = g;
    }
    return s;
  }
  std::unique_ptr<VertexData<Vector3>> vpos;
  std::unique_ptr<EdgeData<double>> elen;
  std::vector<std::string> names;

  Vector3 rnd(double a) { return Vector3{a * (R.unit() - .5), a * (R.unit() - .5), a * (R.unit() - .5)}; }
  void start() {
    g = build(true);
    cnt.assign(g.qs.size(), 0);
    for (size_t i = 0; i < g.qs.size(); i++) {
      names.push_back(g.qs[i].name);
      if ((lengths && g.qs[i].name == "EdgeLengths") || (vg && g.qs[i].name == "VertexPositions")) cnt[i] = 1;
    }
  }
  bool isInput(const std::string& n) {
    if (isCloud) return (cloudKind >= 1 && n == "Normals") || (cloudKind == 2 && n == "TangentBasis");
    return (lengths && n == "EdgeLengths") || (vg && n == "VertexPositions");
  }
  std::vector<long> values() {
    std::vector<long> r;
    for (size_t i = 0; i < g.qs.size(); i++) r.push_back(cnt[i] > 0 ? idOf(names[i], g.qs[i].get()) : 0);
    return r;
  }
  std::vector<long> fresh() {
    std::vector<long> r;
    for (size_t i = 0; i < names.size(); i++) {
      Geo n = build(false);
      Q* q = n.find(names[i]);
      q->req();
      r.push_back(idOf(names[i], q->get()));
    }
    return r;
  }
  // what the immediate functions of the geometry say, as values of the corresponding quantities
  std::vector<std::pair<long, long>> immediates() {
    std::vector<std::pair<long, long>> r;
    auto put = [&](const char* n, const Val& v) {
      for (size_t i = 0; i < names.size(); i++)
        if (names[i] == n) r.push_back({(long)i + 1, idOf(n, v)});
    };
#define IMM(Name, els, expr)                                                                                           \
  {                                                                                                                    \
    Val v{0.};                                                                                                         \
    for (auto x : mesh->els()) fl(v, expr);                                                                            \
    put(Name, v);                                                                                                      \
  }
    if (vg) {
      IMM("EdgeLengths", edges, vg->edgeLength(x))
      IMM("FaceNormals", faces, vg->faceNormal(x))
      if (tri) {
        IMM("FaceAreas", faces, vg->faceArea(x))
        IMM("VertexDualAreas", vertices, vg->vertexDualArea(x))
        IMM("CornerAngles", corners, vg->cornerAngle(x))
        IMM("HalfedgeCotanWeights", halfedges, vg->halfedgeCotanWeight(x))
        IMM("EdgeCotanWeights", edges, vg->edgeCotanWeight(x))
        if (manifold) {
          IMM("EdgeDihedralAngles", edges, vg->edgeDihedralAngle(x))
          IMM("VertexMeanCurvatures", vertices, vg->vertexMeanCurvature(x))
          IMM("VertexGaussianCurvatures", vertices, vg->vertexGaussianCurvature(x))
          IMM("VertexMinPrincipalCurvatures", vertices, vg->vertexMinPrincipalCurvature(x))
          IMM("VertexMaxPrincipalCurvatures", vertices, vg->vertexMaxPrincipalCurvature(x))
          IMM("VertexDualMeanCurvatureNormals", vertices, vg->vertexDualMeanCurvatureNormal(x))
        }
      }
    }
    if (eg && tri) {
      IMM("FaceAreas", faces, eg->faceArea(x))
      IMM("VertexDualAreas", vertices, eg->vertexDualArea(x))
      IMM("CornerAngles", corners, eg->cornerAngle(x))
      IMM("HalfedgeCotanWeights", halfedges, eg->halfedgeCotanWeight(x))
      IMM("EdgeCotanWeights", edges, eg->edgeCotanWeight(x))
      if (manifold) IMM("VertexGaussianCurvatures", vertices, eg->vertexGaussianCurvature(x))
    }
    return r;
  }
  void change() { // new inputs
    if (isCloud) {
      for (Point p : cloud->points()) pg->positions[p] += rnd(0.05);
      if (cloudKind >= 1)
        for (Point p : cloud->points()) {
          Vector3 N = unit(pg->normals[p] + rnd(0.3));
          if (cloudKind == 2) {
            auto B = N.buildTangentBasis();
            pg->tangentBasis[p][0] = B[0];
            pg->tangentBasis[p][1] = B[1];
          }
          pg->normals[p] = N;
        }
    } else if (lengths) {
      for (Edge e : mesh->edges()) eg->inputEdgeLengths[e] = 1. + 0.4 * R.unit();
    } else
      for (Vertex v : mesh->vertices()) vg->inputVertexPositions[v] += rnd(0.2);
  }
  bool mutate() { // edit the mesh, then set the inputs of new elements; false if nothing was done
    if (!mm || !tri) return false;
    int k = (int)R.below(3);
    if (mm->nVertices() > 14) k = 0;
    if (k <= 1) {
      Edge e = mm->edge(0);
      size_t n = R.below(mm->nEdges()), i = 0;
      for (Edge x : mm->edges())
        if (i++ == n) e = x;
      Vector3 m{0, 0, 0};
      double l = 0;
      if (vg) m = .5 * (vg->inputVertexPositions[e.halfedge().tailVertex()] +
                        vg->inputVertexPositions[e.halfedge().tipVertex()]) +
                  rnd(.1);
      if (k == 0) {
        if (e.isBoundary() || e.halfedge().vertex().degree() < 4 || e.halfedge().tipVertex().degree() < 4) return false;
        // a flip must not duplicate an edge (the geometry would degenerate)
        Vertex a = e.halfedge().next().tipVertex(), b = e.halfedge().twin().next().tipVertex();
        if (a == b) return false;
        for (Vertex w : a.adjacentVertices())
          if (w == b) return false;
        if (!mm->flip(e)) return false;
        if (lengths) eg->inputEdgeLengths[e] = 1.2;
      } else {
        Halfedge he = mm->splitEdgeTriangular(e);
        if (vg) vg->inputVertexPositions[he.vertex()] = m;
        if (lengths) {
          for (Edge x : mm->edges()) eg->inputEdgeLengths[x] = 1. + 0.4 * R.unit();
        }
      }
      (void)l;
    } else
      mm->compress();
    return true;
  }
};

static Vector3 place(const std::string& nm, size_t i, size_t n) { // generic positions: a point on a bumpy sphere
  double t = 2.399963 * (double)i, z = 1 - 2 * (i + .5) / (double)n, r = std::sqrt(1 - z * z);
  return Vector3{r * std::cos(t) * 1.1, r * std::sin(t) * 0.9, z + 0.05 * (double)(i % 3)};
}

static bool makeWorld(World& W, const std::string& seed, bool lengths, bool general, uint64_t sd) {
  W.R = Rng(sd);
  seen.clear();
  if (seed.substr(0, 5) == "cloud") {
    W.isCloud = true;
    W.cloudKind = seed[5] - '0';
    size_t n = 14;
    W.cloud.reset(new PointCloud(n));
    W.cpos.reset(new PointData<Vector3>(*W.cloud));
    W.cnrm.reset(new PointData<Vector3>(*W.cloud));
    for (size_t i = 0; i < n; i++) {
      (*W.cpos)[i] = place(seed, i, n) + W.rnd(.1);
      (*W.cnrm)[i] = unit((*W.cpos)[i]);
    }
    W.start();
    return true;
  }
  for (auto& s : seedMeshes())
    if (s.first == seed) {
      size_t n = 0;
      for (auto& f : s.second) {
        if (f.size() != 3) W.tri = false;
        for (size_t v : f) n = std::max(n, v + 1);
      }
      W.lengths = lengths;
      if (general) {
        W.gm.reset(new SurfaceMesh(s.second));
        W.mesh = W.gm.get();
        W.manifold = false;
      } else {
        W.mm.reset(new ManifoldSurfaceMesh(s.second));
        W.mesh = W.mm.get();
      }
      W.vpos.reset(new VertexData<Vector3>(*W.mesh));
      for (size_t i = 0; i < n; i++) (*W.vpos)[i] = place(seed, i, n) + W.rnd(.1);
      W.elen.reset(new EdgeData<double>(*W.mesh));
      for (Edge e : W.mesh->edges()) (*W.elen)[e] = 1. + 0.4 * W.R.unit();
      W.start();
      return true;
    }
  return false;
}

static long start(World& W) {
  about("\"of\":\"init\",\"p\":0");
  cpuLimit(20);
  std::vector<long> inp;
  for (auto& n : W.names) inp.push_back(W.isInput(n));
  std::vector<long> c0(W.cnt.begin(), W.cnt.end());
  J j;
  j("op", "init")("names", W.names)("cnt", c0)("inp", inp)("fresh", W.fresh())("val", W.values())("imm", W.immediates());
  return emit(j);
}
static long step(World& W, const std::string& op, size_t q, long p) {
  J d;
  d("of", op)("p", p)("q", q + 1);
  std::string dd = d.str();
  about(dd.substr(1, dd.size() - 2));
  cpuLimit(20);
  bool ex = false;
  bool fr = false;
  if (op == "require") W.g.qs[q].req(), W.cnt[q]++;
  if (op == "unrequire") {
    try {
      W.g.qs[q].unreq();
      if (W.cnt[q] > 0) W.cnt[q]--; // (no exception although nothing was held: the specification will say so)
    } catch (std::exception&) {
      ex = true;
    }
  }
  if (op == "purge") W.g.purge();
  if (op == "refresh") W.g.refresh();
  if (op == "change") W.change(), fr = true;
  if (op == "mutate") {
    if (!W.mutate()) return 0;
    W.g.refresh();
    fr = true;
  }
  J j;
  j("op", op)("p", p)("q", q + 1)("ex", ex)("fresh", fr ? W.fresh() : std::vector<long>())("val", W.values())(
      "imm", fr ? W.immediates() : std::vector<std::pair<long, long>>());
  return emit(j);
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  init(a.str("out", "/dev/stdout").c_str());
  std::string mode = a.str("mode", "random"), seed = a.str("mesh", "tet");
  bool lengths = a.num("lengths", 0), general = a.num("general", 0);
  uint64_t sd = (uint64_t)a.num("seed", 1) * 1000 + (uint64_t)a.num("shard", 0);
  if (mode == "pairs") { // every ordered pair of quantities
    long stride = a.num("stride", 1), off = a.num("off", 0), k = 0;
    size_t n;
    {
      World W;
      if (!makeWorld(W, seed, lengths, general, 5)) return 9;
      n = W.names.size();
    }
    World* W = new World();
    makeWorld(*W, seed, lengths, general, 5);
    for (size_t x = 0; x < n; x++)
      for (size_t y = 0; y < n; y++) {
        if (x == y || (k++ % stride) != off % stride) continue;
        long p = start(*W);
        auto go = [&](const char* op, size_t q) { p = step(*W, op, q, p); };
        go("require", x);
        go("purge", 0);
        go("require", y);
        go("unrequire", x);
        go("purge", 0);
        go("require", x);
        go("change", 0);
        go("refresh", 0);
        go("unrequire", y);
        go("purge", 0);
        go("unrequire", x);
        go("purge", 0);
        seen.clear();
      }
    done();
    _exit(0);
  }
  long events = a.num("events", 300), len = a.num("len", 60);
  uint64_t h = 0;
  while (nLines() < events) {
    World* W = new World();
    if (!makeWorld(*W, seed, lengths, general, sd * 7919 + h++)) return 9;
    long p = start(*W);
    for (long i = 0; i < len; i++) {
      int r = (int)W->R.below(100);
      size_t q = W->R.below(W->names.size());
      if (r < 40)
        p = step(*W, "require", q, p);
      else if (r < 62) {
        if (W->R.chance(85)) { // prefer something held
          size_t t = 0;
          while (t++ < 60 && (W->cnt[q] == 0 || (W->isInput(W->names[q]) && W->cnt[q] <= 1)))
            q = W->R.below(W->names.size());
        }
        if (W->isInput(W->names[q]) && W->cnt[q] <= 1 && !W->isCloud) continue; // (never give up the geometry's own hold)
        p = step(*W, "unrequire", q, p);
      } else if (r < 80)
        p = step(*W, "purge", 0, p);
      else if (r < 88)
        p = step(*W, "refresh", 0, p);
      else if (r < 95)
        p = step(*W, "change", 0, p);
      else {
        long t = step(*W, "mutate", 0, p);
        if (t) p = t;
      }
    }
  }
  done();
  _exit(0);
}
