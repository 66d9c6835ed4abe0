// Records every geometric quantity and operator on small surfaces with integer positions, for specs/ValueTrace.tla (C38).
// Lengths, areas, matrices in thousandths; angles in ten-thousandths of a radian.
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "meshops.h"
#include "seeds.h"
#include <functional>
#include <memory>
#include <set>
using namespace vt;
typedef std::vector<long> L;
typedef std::vector<L> LL;
typedef std::vector<LL> LLL;

static long K(double x, double s = 1000) { return std::isfinite(x) && std::fabs(x * s) < 1e8 ? std::lround(x * s) : 1000000000L; }
static long A(double x) { return K(x, 1e4); }
static L K2(Vector2 v) { return {K(v.x), K(v.y)}; }
static L K3(Vector3 v) { return {K(v.x), K(v.y), K(v.z)}; }
template <class T>
static void putAt(std::vector<T>& v, long i, const T& x) {
  if ((long)v.size() < i) v.resize(i, T());
  v[i - 1] = x;
}
template <class T>
static LLL mat(const Eigen::SparseMatrix<T>& M0) {
  Eigen::SparseMatrix<T, Eigen::RowMajor> M = M0;
  LLL r(M.rows());
  for (int i = 0; i < M.rows(); i++)
    for (typename Eigen::SparseMatrix<T, Eigen::RowMajor>::InnerIterator it(M, i); it; ++it) {
      std::complex<double> z = it.value();
      long a = K(z.real()), b = K(z.imag());
      if (a == 0 && b == 0) continue;
      L e = {(long)it.col() + 1, a};
      if (!std::is_same<T, double>::value) e.push_back(b);
      r[i].push_back(e);
    }
  return r;
}

struct World {
  std::unique_ptr<SurfaceMesh> m;
  ManifoldSurfaceMesh* mm = nullptr;
  std::unique_ptr<VertexPositionGeometry> g;
  bool tri = true, flat = false, bent = false;
};

static Vector3 vecArea(World& w, Face f) {
  Vector3 n{0, 0, 0};
  for (Halfedge h : f.adjacentHalfedges()) n += cross(w.g->vertexPositions[h.tailVertex()], w.g->vertexPositions[h.tipVertex()]);
  return n;
}
static bool good(World& w) {
  VertexData<Vector3>& p = w.g->vertexPositions;
  for (Edge e : w.m->edges())
    if (norm(p[e.firstVertex()] - p[e.secondVertex()]) < .5) return false;
  for (Face f : w.m->faces()) {
    Vector3 n = vecArea(w, f);
    if (norm(n) < .9) return false;
    Vector3 first = p[f.halfedge().tipVertex()] - p[f.halfedge().tailVertex()];
    if (norm(cross(first, n)) < .1 * norm(first) * norm(n)) return false;
    for (Halfedge h : f.adjacentHalfedges()) {
      Vector3 a = p[h.tipVertex()] - p[h.tailVertex()], b = p[h.next().tipVertex()] - p[h.tipVertex()];
      Vector3 c = cross(a, b);
      double t = std::atan2(norm(c), -dot(a, b));
      if (t < .15 || t > 3.0) return false;
      if (!w.bent && !f.isTriangle() && dot(c, n) < .3 * norm(c) * norm(n)) return false;
    }
  }
  for (Vertex v : w.m->vertices()) { // the normals and the angles at it decide a normal and a basis
    Vector3 s{0, 0, 0}, q{0, 0, 0}, t{0, 0, 0};
    for (Corner c : v.adjacentCorners()) {
      Vector3 n = vecArea(w, c.face()), x = unit(p[c.halfedge().tipVertex()] - p[v]), y = p[v];
      for (Halfedge h : c.face().adjacentHalfedges())
        if (h.tipVertex() == v) y = unit(p[h.tailVertex()] - p[v]);
      s += unit(n), q += n, t += std::acos(std::max(-1., std::min(1., dot(x, y)))) * unit(n);
    }
    if (norm(s) < .5 || norm(q) < .5 || norm(t) < .1) return false;
    Vector3 x = unit(p[v.halfedge().tipVertex()] - p[v.halfedge().tailVertex()]);
    if (w.mm && norm(cross(x, unit(t))) < .1) return false;
  }
  if (w.mm)
    for (Edge e : w.m->edges())
      if (!e.isBoundary() && dot(unit(vecArea(w, e.halfedge().face())), unit(vecArea(w, e.halfedge().twin().face()))) < -.99) return false;
  return true;
}

static const std::vector<Polys> nonmanifold = {
    {{0, 1, 2}, {1, 0, 3}, {0, 1, 4}},
    {{0, 1, 2}, {0, 3, 4}},
    {{0, 1, 2}, {1, 0, 3}, {0, 1, 4}, {4, 1, 5}, {2, 3, 0}},
    {{0, 1, 2}, {0, 1, 3}},
    {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {3, 4, 5}},
};


// large faces: one, two along an edge, and a ring of squares with two lids
static Polys ngons(Rng& R) {
  size_t n = R.range(4, 8);
  Polys P(1);
  for (size_t i = 0; i < n; i++) P[0].push_back(i);
  int o = R.range(0, 2);
  if (o == 1) {
    size_t k = R.range(3, 6);
    P.push_back({1, 0});
    for (size_t i = 0; i + 2 < k; i++) P[1].push_back(n + i);
  } else if (o == 2 && n <= 6) {
    P.push_back({});
    for (size_t i = 0; i < n; i++) P[1].insert(P[1].begin(), n + i);
    for (size_t i = 0; i < n; i++) P.push_back({(i + 1) % n, i, n + i, n + (i + 1) % n});
  }
  return P;
}

static void edits(Rng& R, ManifoldSurfaceMesh& m, int n) {
  for (int k = 0; k < n; k++) {
    std::vector<Edge> E;
    for (Edge e : m.edges()) E.push_back(e);
    std::vector<Face> F;
    for (Face f : m.faces()) F.push_back(f);
    std::vector<Vertex> V;
    for (Vertex v : m.vertices()) V.push_back(v);
    int o = R.range(0, 5);
    if (o <= 1)
      m.flip(R.pick(E));
    else if (o == 2 && m.nVertices() < 10)
      m.insertVertex(R.pick(F));
    else if (o == 3 && m.nVertices() < 10)
      m.splitEdgeTriangular(R.pick(E));
    else if (o == 4 && m.nFaces() > 6) {
      Edge e = R.pick(E);
      if (collapseDomain(e)) m.collapseEdgeTriangular(e);
    } else if (o == 5 && m.nFaces() > 6) {
      Vertex v = R.pick(V);
      if (!v.isBoundary() && simplicialStar(v)) {
        bool ok = true;
        for (Vertex u : v.adjacentVertices()) ok = ok && simplicialStar(u);
        if (ok) {
          Face f = m.removeVertex(v);
          if (f != Face()) m.triangulate(f);
        }
      }
    }
  }
  if (R.chance(30)) m.compress();
}
static bool place(Rng& R, World& w, VertexData<Vector3>& p, int nx) {
  int c = R.range(2, 4), ax = R.range(0, 3);
  bool even = w.bent && w.m->nFaces() <= 2 && R.chance(50);
  for (Vertex v : w.m->vertices()) {
    if (w.flat) {
      long i = v.getIndex() % (nx + 1), j = v.getIndex() / (nx + 1);
      double x = 2 * i + R.range(0, 1), y = 2 * j + R.range(0, 1);
      p[v] = ax == 0 ? Vector3{x, y, 0} : ax == 1 ? Vector3{1, x, y} : ax == 2 ? Vector3{y, 2, x} : Vector3{x, y, x - 1};
    } else
      p[v] = Vector3{(double)R.range(0, c), (double)R.range(0, c), (double)(even ? ax : R.range(0, c))};
  }
  w.g.reset(new VertexPositionGeometry(*w.m, p));
  if (w.flat) {
    Vector3 up = ax == 0 ? Vector3{0, 0, 1} : ax == 1 ? Vector3{1, 0, 0} : ax == 2 ? Vector3{0, 1, 0} : Vector3{-1, 0, 1};
    for (Face f : w.m->faces())
      if (dot(up, vecArea(w, f)) < .5) return false;
  }
  return good(w);
}
// no huge entries (and, in large faces that need not be convex, none that are not finite)
static bool tame(World& w) {
  if (!w.mm) return true;
  VertexPositionGeometry g(*w.m, w.g->inputVertexPositions);
  auto ok = [&](const Eigen::SparseMatrix<double>& M) {
    for (int i = 0; i < M.outerSize(); i++)
      for (Eigen::SparseMatrix<double>::InnerIterator it(M, i); it; ++it)
        if (std::isfinite(it.value()) ? std::fabs(it.value()) > 300 : w.bent) return false;
    return true;
  };
  try {
    g.requireSimplePolygonLaplacian(), g.requireSimplePolygonVertexGalerkinMassMatrix(), g.requirePolygonLaplacian();
  } catch (std::exception&) {
    return true; // recorded as refused
  }
  return ok(g.simplePolygonLaplacian) && ok(g.simplePolygonVertexGalerkinMassMatrix) && ok(g.polygonLaplacian);
}
static bool begin(Rng& R, World& w) {
  int kind = R.range(0, 10), nx = 1;
  bool polys = R.chance(40) || kind == 10;
  w.bent = kind == 10 && R.chance(70);
  if (kind == 0) { // not manifold, or not oriented
    w.m.reset(new SurfaceMesh(R.pick(nonmanifold)));
  } else {
    Polys P;
    if (kind <= 3) { // flat
      w.flat = true;
      nx = R.range(1, 2);
      int m = R.range(1, 2);
      P = gridPolys(nx, m, false, false, R.range(0, 2));
    } else
      P = kind == 10 ? ngons(R) : R.pick(seedMeshes()).second;
    w.mm = new ManifoldSurfaceMesh(P);
    w.m.reset(w.mm);
    if (w.mm->nFaces() > 20) return false;
    if (!polys) {
      std::vector<Face> F;
      for (Face f : w.mm->faces()) F.push_back(f);
      for (Face f : F) w.mm->triangulate(f);
      if (w.flat) {
        for (int k = R.range(0, 4); k > 0; k--) {
          std::vector<Edge> E;
          for (Edge e : w.mm->edges()) E.push_back(e);
          w.mm->flip(R.pick(E));
        }
      } else
        edits(R, *w.mm, R.chance(60) ? R.range(1, 5) : 0);
    }
  }
  w.tri = w.m->isTriangular();
  for (Face f : w.m->faces()) {
    std::set<size_t> s;
    for (Vertex v : f.adjacentVertices()) s.insert(v.getIndex());
    if (s.size() != f.degree()) return false;
  }
  VertexData<Vector3> p(*w.m);
  for (int k = 0; k < (w.tri ? 300 : 4000); k++)
    if (place(R, w, p, nx)) return tame(w);
  return false;
}

typedef std::function<void(J&)> Q;
struct Ask {
  std::string name;
  Q f;
};
struct Run {
  World& w;
  SurfaceMesh& m;
  long at = 0;
  Run(World& w_) : w(w_), m(*w_.m) {}
  void start() {
    J e = J()("op", "init")("tri", (int)w.tri)("man", (int)(w.mm != nullptr))("flat", (int)w.flat);
    L H, V, E, F, nx, tl, ed, fc, eh, fh, vh, tw, ori;
    for (Halfedge h : m.halfedges()) {
      long i = eid(h);
      H.push_back(i), put(nx, i, eid(h.next())), put(tl, i, eid(h.vertex())), put(ed, i, eid(h.edge()));
      put(fc, i, h.isInterior() ? eid(h.face()) : 0), put(tw, i, w.mm ? eid(h.twin()) : 0), put(ori, i, h.orientation());
    }
    for (Vertex v : m.vertices()) V.push_back(eid(v)), put(vh, eid(v), eid(v.halfedge()));
    for (Edge v : m.edges()) E.push_back(eid(v)), put(eh, eid(v), eid(v.halfedge()));
    for (Face v : m.faces()) F.push_back(eid(v)), put(fh, eid(v), eid(v.halfedge()));
    LL p;
    for (Vertex v : m.vertices()) {
      Vector3 x = w.g->inputVertexPositions[v];
      putAt(p, eid(v), L{std::lround(x.x), std::lround(x.y), std::lround(x.z)});
    }
    at = emit(e("H", H)("V", V)("E", E)("F", F)("nx", nx)("tl", tl)("ed", ed)("fc", fc)("eh", eh)("fh", fh)("vh", vh)("tw", tw)("ori", ori)("p", p));
  }
  L onE(const EdgeData<double>& d, double s = 1000) {
    L r;
    for (Edge e : m.edges()) put(r, eid(e), K(d[e], s));
    return r;
  }
  L onF(const FaceData<double>& d, double s = 1000) {
    L r;
    for (Face e : m.faces()) put(r, eid(e), K(d[e], s));
    return r;
  }
  L onV(const VertexData<double>& d, double s = 1000) {
    L r;
    for (Vertex e : m.vertices()) put(r, eid(e), K(d[e], s));
    return r;
  }
  L onH(const HalfedgeData<double>& d) {
    L r;
    for (Halfedge e : m.halfedges()) put(r, eid(e), K(d[e]));
    return r;
  }
  L onC(const CornerData<double>& d) {
    L r;
    for (Corner e : m.corners()) put(r, eid(e.halfedge()), A(d[e]));
    return r;
  }
  void onH2(J& j, const char* k, const char* ku, const HalfedgeData<Vector2>& d) {
    LL r;
    L u;
    for (Halfedge e : m.halfedges()) {
      Vector2 x = d[e];
      if (!std::isfinite(x.x) || !std::isfinite(x.y)) u.push_back(eid(e)), x = Vector2{0, 0};
      putAt(r, eid(e), K2(x));
    }
    j(k, r)(ku, u);
  }
  LL onV2(const VertexData<Vector2>& d) {
    LL r;
    for (Vertex e : m.vertices()) putAt(r, eid(e), K2(d[e]));
    return r;
  }
  LL onF2(const FaceData<Vector2>& d) {
    LL r;
    for (Face e : m.faces()) putAt(r, eid(e), K2(d[e]));
    return r;
  }
  LL onV3(const VertexData<Vector3>& d) {
    LL r;
    for (Vertex e : m.vertices()) putAt(r, eid(e), K3(d[e]));
    return r;
  }
  LL onF3(const FaceData<Vector3>& d) {
    LL r;
    for (Face e : m.faces()) putAt(r, eid(e), K3(d[e]));
    return r;
  }
  template <class D, class Els>
  LLL basis(Els els, D& d) {
    LLL r;
    for (auto e : els) putAt(r, eid(e), LL{K3(d[e][0]), K3(d[e][1])});
    return r;
  }

  std::vector<Ask> intrinsic(IntrinsicGeometryInterface& g, bool lengths) {
    std::vector<Ask> a;
    bool tri = w.tri, man = w.mm != nullptr;
    auto add = [&](const char* n, Q q) { a.push_back({n, q}); };
    add("el", [&](J& j) { g.requireEdgeLengths(), j("el", onE(g.edgeLengths)); });
    add("mls", [&](J& j) { g.requireMeshLengthScale(), j("mls", K(g.meshLengthScale)); });
    if (tri || !lengths) {
      add("fa", [&](J& j) { g.requireFaceAreas(), j("fa", onF(g.faceAreas)); });
      add("ca", [&](J& j) { g.requireCornerAngles(), j("ca", onC(g.cornerAngles)); });
      add("as", [&](J& j) { g.requireVertexAngleSums(), j("as", onV(g.vertexAngleSums, 1e4)); });
      add("sls", [&](J& j) { g.requireShapeLengthScale(), j("sls", K(g.shapeLengthScale)); });
    }
    if (!tri) return a;
    add("da", [&](J& j) { g.requireVertexDualAreas(), j("da", onV(g.vertexDualAreas)); });
    add("vK", [&](J& j) { g.requireVertexGaussianCurvatures(), j("vK", onV(g.vertexGaussianCurvatures, 1e4)); });
    add("hc", [&](J& j) { g.requireHalfedgeCotanWeights(), j("hc", onH(g.halfedgeCotanWeights)); });
    add("ec", [&](J& j) { g.requireEdgeCotanWeights(), j("ec", onE(g.edgeCotanWeights)); });
    add("hf", [&](J& j) { g.requireHalfedgeVectorsInFace(), onH2(j, "hf", "hfu", g.halfedgeVectorsInFace); });
    add("L", [&](J& j) { g.requireCotanLaplacian(), j("L", mat(g.cotanLaplacian)); });
    add("ML", [&](J& j) { g.requireVertexLumpedMassMatrix(), j("ML", mat(g.vertexLumpedMassMatrix)); });
    add("MG", [&](J& j) { g.requireVertexGalerkinMassMatrix(), j("MG", mat(g.vertexGalerkinMassMatrix)); });
    add("FG", [&](J& j) { g.requireFaceGalerkinMassMatrix(), j("FG", mat(g.faceGalerkinMassMatrix)); });
    add("CR", [&](J& j) { g.requireCrouzeixRaviartLaplacian(), j("CR", mat(g.crouzeixRaviartLaplacian)); });
    add("CM", [&](J& j) { g.requireCrouzeixRaviartMassMatrix(), j("CM", mat(g.crouzeixRaviartMassMatrix)); });
    add("dec", [&](J& j) {
      g.requireDECOperators();
      j("h0", mat(g.hodge0))("h0i", mat(g.hodge0Inverse))("h1", mat(g.hodge1))("h1i", mat(g.hodge1Inverse))("h2", mat(g.hodge2))("h2i", mat(g.hodge2Inverse));
      j("d0", mat(g.d0))("d1", mat(g.d1));
    });
    add("sa", [&](J& j) { g.requireCornerScaledAngles(), j("sa", onC(g.cornerScaledAngles)); });
    add("fK", [&](J& j) { g.requireFaceGaussianCurvatures(), j("fK", onF(g.faceGaussianCurvatures, 1e4)); });
    if (!man) return a;
    add("tf", [&](J& j) { g.requireTransportVectorsAcrossHalfedge(), onH2(j, "tf", "tfu", g.transportVectorsAcrossHalfedge); });
    add("hv", [&](J& j) { g.requireHalfedgeVectorsInVertex(), onH2(j, "hv", "hvu", g.halfedgeVectorsInVertex); });
    add("tv", [&](J& j) { g.requireTransportVectorsAlongHalfedge(), onH2(j, "tv", "tvu", g.transportVectorsAlongHalfedge); });
    add("CL", [&](J& j) { g.requireVertexConnectionLaplacian(), j("CL", mat(g.vertexConnectionLaplacian)); });
    add("FC", [&](J& j) { g.requireFaceConnectionLaplacian(), j("FC", mat(g.faceConnectionLaplacian)); });
    add("CC", [&](J& j) { g.requireCrouzeixRaviartConnectionLaplacian(), j("CC", mat(g.crouzeixRaviartConnectionLaplacian)); });
    return a;
  }
  std::vector<Ask> embedded(VertexPositionGeometry& g) {
    std::vector<Ask> a = intrinsic(g, false);
    bool tri = w.tri, man = w.mm != nullptr;
    auto add = [&](const char* n, Q q) { a.push_back({n, q}); };
    add("fn", [&](J& j) { g.requireFaceNormals(), j("fn", onF3(g.faceNormals)); });
    add("vn", [&](J& j) { g.requireVertexNormals(), j("vn", onV3(g.vertexNormals)); });
    add("imm", [&](J& j) {
      FaceData<double> fa(m);
      FaceData<Vector3> fn(m);
      EdgeData<double> el(m);
      CornerData<double> ca(m);
      LL hv;
      for (Face f : m.faces()) fn[f] = g.faceNormal(f);
      if (tri)
        for (Face f : m.faces()) fa[f] = g.faceArea(f);
      for (Edge e : m.edges()) el[e] = g.edgeLength(e);
      if (tri)
        for (Corner c : m.corners()) ca[c] = g.cornerAngle(c);
      for (Halfedge h : m.halfedges()) putAt(hv, eid(h), K3(g.halfedgeVector(h)));
      j("ifn", onF3(fn))("iel", onE(el))("ihv", hv);
      if (tri) j("ifa", onF(fa))("ica", onC(ca));
    });
    add("ft", [&](J& j) { g.requireFaceTangentBasis(), j("ft", basis(m.faces(), g.faceTangentBasis)); });
    add("vt", [&](J& j) { g.requireVertexTangentBasis(), j("vt", basis(m.vertices(), g.vertexTangentBasis)); });
    if (man) {
      add("dh", [&](J& j) { g.requireEdgeDihedralAngles(), j("dh", onE(g.edgeDihedralAngles, 1e4)); });
      add("vH", [&](J& j) { g.requireVertexMeanCurvatures(), j("vH", onV(g.vertexMeanCurvatures)); });
    }
    if (tri) {
      add("mn", [&](J& j) { g.requireVertexDualMeanCurvatureNormals(), j("mn", onV3(g.vertexDualMeanCurvatureNormals)); });
      add("immt", [&](J& j) {
        HalfedgeData<double> hc(m, 0);
        EdgeData<double> ec(m);
        VertexData<double> da(m);
        VertexData<Vector3> mn(m);
        for (Halfedge h : m.interiorHalfedges()) hc[h] = g.halfedgeCotanWeight(h);
        for (Edge e : m.edges()) ec[e] = g.edgeCotanWeight(e);
        for (Vertex v : m.vertices()) da[v] = g.vertexDualArea(v), mn[v] = g.vertexDualMeanCurvatureNormal(v);
        j("ihc", onH(hc))("iec", onE(ec))("ida", onV(da))("imn", onV3(mn));
      });
    }
    if (tri && man) {
      add("k1", [&](J& j) { g.requireVertexMinPrincipalCurvatures(), j("k1", onV(g.vertexMinPrincipalCurvatures)); });
      add("k2", [&](J& j) { g.requireVertexMaxPrincipalCurvatures(), j("k2", onV(g.vertexMaxPrincipalCurvatures)); });
      add("pv", [&](J& j) { g.requireVertexPrincipalCurvatureDirections(), j("pv", onV2(g.vertexPrincipalCurvatureDirections)); });
      add("pf", [&](J& j) { g.requireFacePrincipalCurvatureDirections(), j("pf", onF2(g.facePrincipalCurvatureDirections)); });
      add("immc", [&](J& j) {
        VertexData<double> vK(m), vH(m), k1(m), k2(m);
        EdgeData<double> dh(m);
        for (Vertex v : m.vertices())
          vK[v] = g.vertexGaussianCurvature(v), vH[v] = g.vertexMeanCurvature(v), k1[v] = g.vertexMinPrincipalCurvature(v), k2[v] = g.vertexMaxPrincipalCurvature(v);
        for (Edge e : m.edges()) dh[e] = g.edgeDihedralAngle(e);
        j("ivK", onV(vK, 1e4))("ivH", onV(vH))("ik1", onV(k1))("ik2", onV(k2))("idh", onE(dh, 1e4));
      });
    }
    if (man) {
      add("sL", [&](J& j) { g.requireSimplePolygonLaplacian(), j("sL", mat(g.simplePolygonLaplacian)); });
      add("sM", [&](J& j) { g.requireSimplePolygonVertexLumpedMassMatrix(), j("sM", mat(g.simplePolygonVertexLumpedMassMatrix)); });
      add("sG", [&](J& j) { g.requireSimplePolygonVertexGalerkinMassMatrix(), j("sG", mat(g.simplePolygonVertexGalerkinMassMatrix)); });
      add("pL", [&](J& j) { g.requirePolygonLaplacian(), j("pL", mat(g.polygonLaplacian)); });
      add("pG", [&](J& j) { g.requirePolygonGradientMatrix(), j("pG", mat(g.polygonGradientMatrix)); });
      add("pV", [&](J& j) { g.requirePolygonDivergenceMatrix(), j("pV", mat(g.polygonDivergenceMatrix)); });
      add("pM", [&](J& j) { g.requirePolygonVertexLumpedMassMatrix(), j("pM", mat(g.polygonVertexLumpedMassMatrix)); });
      add("pC", [&](J& j) { g.requirePolygonVertexConnectionLaplacian(), j("pC", mat(g.polygonVertexConnectionLaplacian)); });
      add("pdec", [&](J& j) {
        g.requirePolygonDECOperators();
        j("ph0", mat(g.polygonHodge0))("ph0i", mat(g.polygonHodge0Inverse))("ph1", mat(g.polygonHodge1))("ph2", mat(g.polygonHodge2))("ph2i", mat(g.polygonHodge2Inverse));
        j("pd0", mat(g.polygonD0))("pd1", mat(g.polygonD1));
      });
    }
    return a;
  }
  std::vector<Ask> byLength(EdgeLengthGeometry& g) {
    std::vector<Ask> a = intrinsic(g, true);
    if (!w.tri) return a;
    a.push_back({"imm", [&](J& j) {
                   FaceData<double> fa(m), fr(m);
                   CornerData<double> ca(m);
                   HalfedgeData<double> hc(m, 0);
                   EdgeData<double> ec(m);
                   VertexData<double> da(m), vK(m);
                   for (Face f : m.faces()) fa[f] = g.faceArea(f), fr[f] = g.faceCircumradius(f);
                   for (Corner c : m.corners()) ca[c] = g.cornerAngle(c);
                   for (Halfedge h : m.interiorHalfedges()) hc[h] = g.halfedgeCotanWeight(h);
                   for (Edge e : m.edges()) ec[e] = g.edgeCotanWeight(e);
                   for (Vertex v : m.vertices()) da[v] = g.vertexDualArea(v), vK[v] = g.vertexGaussianCurvature(v);
                   j("ifa", onF(fa))("ifr", onF(fr))("ica", onC(ca))("ihc", onH(hc))("iec", onE(ec))("ida", onV(da))("ivK", onV(vK, 1e4));
                 }});
    return a;
  }
  // what every check looks at comes in every record; of the rest a few at a time, in any order
  void ask(Rng& R, std::vector<Ask> a, IntrinsicGeometryInterface& g, const char* kind, int part) {
    J e = J()("op", "q")("p", at)("kind", kind);
    std::string why;
    about(std::string("\"of\":\"") + kind + "\",\"p\":" + std::to_string(at));
    cpuLimit(20);
    for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[R.below(i)]);
    static const std::set<std::string> base = {"el", "fa", "ca", "as", "hc", "ec", "da", "sa", "hf", "hv", "tf", "tv", "vK", "dh", "vH", "fn", "vn", "sG", "sL", "pG", "pL", "vt"};
    std::vector<std::string> refused;
    for (auto& q : a) {
      if (!base.count(q.name) && !R.chance(part)) continue;
      try {
        J t;
        q.f(t);
        std::string x = t.str();
        if (x.size() > 2) e.s += std::string(",") + x.substr(1, x.size() - 2);
      } catch (std::exception& x) {
        refused.push_back(q.name + ": " + x.what());
      }
    }
    g.requireVertexIndices(), g.requireEdgeIndices(), g.requireFaceIndices();
    L vi, ei, fi;
    for (Vertex v : m.vertices()) vi.push_back(g.vertexIndices[v]);
    for (Edge v : m.edges()) ei.push_back(g.edgeIndices[v]);
    for (Face v : m.faces()) fi.push_back(g.faceIndices[v]);
    emit(e("vi", vi)("ei", ei)("fi", fi)("refused", refused));
  }
};

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long iters = A.num("iters", 10), seed = A.num("seed", 1), shard = A.num("shard", 0);
  for (long it = 0; it < iters; it++) {
    Rng R(seed * 1000003 + shard * 7919 + it * 31 + 38);
    World w;
    if (!begin(R, w)) continue;
    Run r(w);
    r.start();
    // the same object again after its surface moved and came back
    if (R.chance(30)) {
      VertexData<Vector3> keep = w.g->inputVertexPositions;
      for (Vertex v : w.m->vertices()) w.g->inputVertexPositions[v] = keep[v] * 2 + Vector3{1, 0, 2};
      for (auto& q : r.embedded(*w.g))
        if (R.chance(30)) {
          J t;
          try {
            q.f(t);
          } catch (std::exception&) {
          }
        }
      w.g->inputVertexPositions = keep;
      w.g->refreshQuantities();
    }
    r.ask(R, r.embedded(*w.g), *w.g, "pos", 40);
    EdgeData<double> l(*w.m);
    for (Edge e : w.m->edges()) l[e] = norm(w.g->inputVertexPositions[e.firstVertex()] - w.g->inputVertexPositions[e.secondVertex()]);
    EdgeLengthGeometry lg(*w.m, l);
    r.ask(R, r.byLength(lg), lg, "len", 40);
  }
  vt::done();
  _exit(0);
}
