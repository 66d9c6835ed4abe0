// Records what SurfacePoint and BarycentricVector say about points and displacement vectors with rational coordinates
// (multiples of 1/12) on small triangle meshes with integer edge lengths, for specs/PointTrace.tla (C26).
#include "geometrycentral/surface/barycentric_coordinate_helpers.h"
#include "geometrycentral/surface/barycentric_vector.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_point.h"
#include "seeds.h"
#include "vt.h"
#include <memory>
using namespace vt;
using namespace geometrycentral;
using namespace geometrycentral::surface;
typedef std::vector<long> L;
static const double D = 12;

static long ri(double x) { // to twelfths; 99999 when it is not one
  double y = x * D;
  if (!std::isfinite(y) || std::abs(y - std::round(y)) > 1e-6 || std::abs(y) > 50000) return 99999;
  return (long)std::round(y);
}
static L enc(const SurfacePoint& p) {
  if (p.type == SurfacePointType::Vertex) return {0, (long)p.vertex.getIndex() + 1};
  if (p.type == SurfacePointType::Edge) return {1, (long)p.edge.getIndex() + 1, ri(p.tEdge)};
  return {2, (long)p.face.getIndex() + 1, ri(p.faceCoords.x), ri(p.faceCoords.y), ri(p.faceCoords.z)};
}
static L enc(const BarycentricVector& p) {
  if (p.type == BarycentricVectorType::Vertex) return {0, (long)p.vertex.getIndex() + 1};
  if (p.type == BarycentricVectorType::Edge)
    return {1, (long)p.edge.getIndex() + 1, ri(p.edgeCoords.x), ri(p.edgeCoords.y)};
  return {2, (long)p.face.getIndex() + 1, ri(p.faceCoords.x), ri(p.faceCoords.y), ri(p.faceCoords.z)};
}
template <class F>
static L tryEnc(F f) { // empty when refused
  try {
    return enc(f());
  } catch (std::exception&) {
    return {};
  }
}
struct W {
  std::unique_ptr<ManifoldSurfaceMesh> m;
  std::unique_ptr<EdgeLengthGeometry> g;
  std::unique_ptr<VertexData<double>> data;
  std::vector<SurfacePoint> pts;
};
static long emitInit(W& w) {
  std::vector<L> fv, fe, fo, et;
  for (Face f : w.m->faces()) {
    L a, b, c;
    for (Halfedge h : f.adjacentHalfedges()) {
      a.push_back((long)h.vertex().getIndex() + 1);
      b.push_back((long)h.edge().getIndex() + 1);
      c.push_back(h == h.edge().halfedge() ? 1 : 0);
    }
    fv.push_back(a), fe.push_back(b), fo.push_back(c);
  }
  L l2, dat;
  for (Edge e : w.m->edges()) {
    et.push_back({(long)e.halfedge().vertex().getIndex() + 1, (long)e.halfedge().tipVertex().getIndex() + 1});
    double l = w.g->inputEdgeLengths[e];
    l2.push_back((long)std::round(l * l));
  }
  for (Vertex v : w.m->vertices()) dat.push_back((long)(*w.data)[v]);
  J j;
  j("op", "init")("fv", fv)("fe", fe)("fo", fo)("et", et)("l2", l2)("nv", w.m->nVertices())("data", dat);
  return emit(j);
}
static void aboutOp(const char* of, long p, const L& a, const L& b) {
  J d;
  d("of", of)("p", p)("a", a)("b", b);
  std::string dd = d.str();
  about(dd.substr(1, dd.size() - 2));
  cpuLimit(5);
}
static void point(W& w, long p, SurfacePoint s) {
  aboutOp("point", p, enc(s), L());
  std::vector<L> inF, inE;
  for (Face f : w.m->faces()) inF.push_back(tryEnc([&] { return s.inFace(f); }));
  for (Edge e : w.m->edges()) inE.push_back(tryEnc([&] { return s.inEdge(e); }));
  L some = enc(s.inSomeFace());
  bool valid = true;
  try {
    s.validate();
  } catch (std::exception&) {
    valid = false;
  }
  long eq = 0;
  for (auto& o : w.pts) eq += (o == s) != (o != s) ? (o == s) : 100;
  J j;
  j("op", "point")("p", p)("a", enc(s))("some", some)("inF", inF)("inE", inE)(
      "near", (long)s.nearestVertex().getIndex() + 1)("interp", ri(s.interpolate(*w.data)))("valid", valid)("eq", eq);
  emit(j);
}
static void pairEv(W& w, long p, SurfacePoint a, SurfacePoint b, bool vec) {
  aboutOp("pair", p, enc(a), enc(b));
  Face f = sharedFace(a, b);
  Edge e = sharedEdge(a, b);
  J j;
  j("op", "pair")("p", p)("a", enc(a))("b", enc(b))("adj", checkAdjacent(a, b))("same", onSameElement(a, b))(
      "sf", f == Face() ? 0L : (long)f.getIndex() + 1)("se", e == Edge() ? 0L : (long)e.getIndex() + 1)(
      "v", tryEnc([&] { return BarycentricVector(a, b); }))("eq", (a == b) && !(a != b));
  emit(j);
  (void)vec;
}
static bool close(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
// cartesian picture of a face vector, the first corner at the origin and the second on the x axis
static Vector2 flat(W& w, const BarycentricVector& v, Face f) {
  Halfedge h = f.halfedge();
  double ab = w.g->inputEdgeLengths[h.edge()], bc = w.g->inputEdgeLengths[h.next().edge()],
         ca = w.g->inputEdgeLengths[h.next().next().edge()];
  double x = (ab * ab + ca * ca - bc * bc) / (2 * ab), y = std::sqrt(ca * ca - x * x);
  BarycentricVector u = v.inFace(f);
  return u.faceCoords.y * Vector2{ab, 0} + u.faceCoords.z * Vector2{x, y};
}
static void vecEv(W& w, long p, BarycentricVector a, BarycentricVector b, Rng& R) {
  aboutOp("vec", p, enc(a), enc(b));
  std::vector<L> inF, inE;
  for (Face f : w.m->faces()) inF.push_back(tryEnc([&] { return a.inFace(f); }));
  for (Edge e : w.m->edges()) inE.push_back(tryEnc([&] { return a.inEdge(e); }));
  Face f = sharedFace(a, b);
  Edge e = sharedEdge(a, b);
  L sum = tryEnc([&] { return a + b; }), dif = tryEnc([&] { return a - b; });
  L sum2 = tryEnc([&] {
    BarycentricVector c = a;
    c += b;
    return c;
  });
  L dif2 = tryEnc([&] {
    BarycentricVector c = a;
    c -= b;
    return c;
  });
  long k = R.range(2, 4);
  BarycentricVector c1 = a, c2 = a;
  c1 *= (double)k;
  c2 /= (double)k;
  L mul1 = enc(c1), mul2 = enc(a * (double)k), mul3 = enc((double)k * a);
  bool divOk = enc(c2 * (double)k) == enc(a) && enc((a / (double)k) * (double)k) == enc(a);
  bool valid = true;
  try {
    a.validate();
  } catch (std::exception&) {
    valid = false;
  }
  bool hasDot = true;
  double dt = 0;
  try {
    dt = dot(*w.g, a, b);
  } catch (std::exception&) {
    hasDot = false;
  }
  double n2 = a.norm2(*w.g), n = a.norm(*w.g);
  bool normOk = close(n * n, n2) && close(norm(*w.g, a), n) && close(norm2(*w.g, a), n2);
  // rotations
  bool rotOk = true;
  auto chk = [&](BarycentricVector r, double ang) {
    Face rf = r.type == BarycentricVectorType::Face ? r.face : a.inSomeFace().face;
    if (a.type == BarycentricVectorType::Vertex) {
      rotOk = rotOk && r.type == BarycentricVectorType::Vertex && r.vertex == a.vertex;
      return;
    }
    Vector2 x = flat(w, a, rf), y = flat(w, r, rf);
    Vector2 z = x * Vector2::fromAngle(ang);
    if (!(norm(z - y) <= 1e-9 * (1 + norm(z)))) rotOk = false;
  };
  chk(a.rotate90(*w.g), M_PI / 2);
  for (double ang : {0., 0.7, M_PI / 2, 2.5, M_PI, 4., 5.5, -1., -3.}) chk(a.rotate(*w.g, ang), ang);
  // displacements that do not sum to zero are shifted to do so
  BarycentricVector nd = a;
  if (nd.type == BarycentricVectorType::Face) nd.faceCoords += Vector3::constant(0.75);
  if (nd.type == BarycentricVectorType::Edge) nd.edgeCoords += Vector2::constant(0.75);
  BarycentricVector nd2 = nd.normalizedDisplacement();
  nd.normalizeDisplacement();
  bool ndOk = enc(nd) == enc(a) && enc(nd2) == enc(a);
  J j;
  j("op", "vec")("p", p)("a", enc(a))("b", enc(b))("inF", inF)("inE", inE)("some", enc(a.inSomeFace()))(
      "sf", f == Face() ? 0L : (long)f.getIndex() + 1)("se", e == Edge() ? 0L : (long)e.getIndex() + 1)("sum", sum)(
      "dif", dif)("sum2", sum2)("dif2", dif2)("k", k)("mul1", mul1)("mul2", mul2)("mul3", mul3)("divOk", divOk)(
      "neg", enc(-a))("valid", valid)("hasDot", hasDot)("dot2", hasDot ? (long)std::round(2 * dt * D * D) : 0L)(
      "n2", (long)std::round(n2 * D * D))("normOk", normOk)("rotOk", rotOk)("ndOk", ndOk)(
      "eq", (a == b) && !(a != b));
  emit(j);
}
static void validity(W& w, long p, Rng& R) {
  auto go = [&](const SurfacePoint& s, bool ok) {
    aboutOp("validate", p, enc(s), {});
    bool r = true;
    try {
      s.validate();
    } catch (std::exception&) {
      r = false;
    }
    J j;
    j("op", "validate")("p", p)("a", enc(s))("want", ok)("valid", r);
    emit(j);
  };
  auto gov = [&](const BarycentricVector& s, bool ok) {
    aboutOp("validate", p, enc(s), {});
    bool r = true;
    try {
      s.validate();
    } catch (std::exception&) {
      r = false;
    }
    J j;
    j("op", "validate")("p", p)("a", enc(s))("want", ok)("valid", r);
    emit(j);
  };
  Edge e = w.m->edge(0);
  Face f = w.m->face(0);
  double nan = std::numeric_limits<double>::quiet_NaN();
  for (int t = -2; t <= 14; t++) go(SurfacePoint(e, t / D), t >= 0 && t <= 12);
  for (int i = 0; i < 40; i++) {
    int x = R.range(-2, 13), y = R.range(-2, 13), z = 12 - x - y + (R.chance(20) ? 2 : 0);
    go(SurfacePoint(f, Vector3{x / D, y / D, z / D}), x >= 0 && y >= 0 && z >= 0 && x + y + z <= 12);
    gov(BarycentricVector(f, Vector3{x / D, y / D, z / D}), x + y + z == 0);
    gov(BarycentricVector(f, Vector3{x / D, y / D, -(x + y) / D}), true);
    gov(BarycentricVector(e, Vector2{x / D, y / D}), x + y == 0);
  }
  go(SurfacePoint(e, nan), false);
  for (int k = 0; k < 3; k++) {
    Vector3 c{.25, .25, .5}, d{.25, .25, -.5};
    c[k] = nan;
    d[k] = nan;
    go(SurfacePoint(f, c), false);
    gov(BarycentricVector(f, d), false);
  }
  gov(BarycentricVector(e, Vector2{nan, 1}), false);
  gov(BarycentricVector(e, Vector2{1, nan}), false);
}
static void helpers(W& w, long p, Rng& R) { // barycentric helpers on one face
  for (Face f : w.m->faces())
    for (Halfedge h : f.adjacentHalfedges()) {
      aboutOp("perm", p, {(long)f.getIndex() + 1}, {});
      long a = R.range(0, 12), b = R.range(0, 12 - a);
      Vector3 c{a / D, b / D, (D - a - b) / D};
      auto l = [](Vector3 x) { return L{ri(x.x), ri(x.y), ri(x.z)}; };
      J j;
      j("op", "perm")("p", p)("c", l(c))("k", halfedgeIndexInTriangle(h))("to", l(permuteBarycentricToCanonical(c, h)))(
          "fr", l(permuteBarycentricFromCanonical(c, h)));
      emit(j);
      // a point given along a halfedge
      double t = (double)R.range(0, 12) / D;
      SurfacePoint s(h, t);
      J j2;
      j2("op", "along")("p", p)("e", (long)h.edge().getIndex() + 1)("fwd", h == h.edge().halfedge())("t", ri(t))(
          "r", enc(s));
      emit(j2);
      SurfacePoint s2(h.twin(), t);
      J j3;
      j3("op", "along")("p", p)("e", (long)h.edge().getIndex() + 1)("fwd", h != h.edge().halfedge())("t", ri(t))(
          "r", enc(s2));
      emit(j3);
      J j4;
      j4("op", "hevec")("p", p)("f", (long)f.getIndex() + 1)("e", (long)h.edge().getIndex() + 1)(
          "fwd", h == h.edge().halfedge())("r", enc(BarycentricVector(h, f)))("r2", enc(BarycentricVector(h.twin(), f)));
      emit(j4);
    }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  init(a.str("out", "/dev/stdout").c_str());
  std::string mesh = a.str("mesh", "tet");
  Rng R((uint64_t)a.num("seed", 1) * 131 + (uint64_t)a.num("shard", 0));
  long shard = a.num("shard", 0), shards = a.num("shards", 1), vecs = a.num("vecs", 400), rounds = a.num("rounds", 1);
  for (long round = 0; round < rounds; round++) {
    W w;
    for (auto& s : seedMeshes())
      if (s.first == mesh) w.m.reset(new ManifoldSurfaceMesh(s.second));
    if (!w.m) return 9;
    // other representatives than the constructor's
    for (int i = 0; i < 3 * (int)round; i++) {
      Edge e = w.m->edge(R.below(w.m->nEdges()));
      if (!e.isBoundary() && R.chance(60)) {
        Vertex x = e.halfedge().next().tipVertex(), y = e.halfedge().twin().next().tipVertex();
        bool adj = x == y;
        for (Vertex n : x.adjacentVertices()) adj = adj || n == y;
        if (!adj) w.m->flip(e);
      }
    }
    w.g.reset(new EdgeLengthGeometry(*w.m));
    for (Edge e : w.m->edges()) w.g->inputEdgeLengths[e] = (double)R.range(5, 7);
    w.data.reset(new VertexData<double>(*w.m));
    for (Vertex v : w.m->vertices()) (*w.data)[v] = (double)R.range(-9, 9);
    for (Vertex v : w.m->vertices()) w.pts.push_back(SurfacePoint(v));
    for (Edge e : w.m->edges()) {
      w.pts.push_back(SurfacePoint(e, R.range(1, 11) / D));
      w.pts.push_back(SurfacePoint(e, R.range(0, 12) / D));
    }
    for (Face f : w.m->faces())
      for (int i = 0; i < 2; i++) {
        long x = R.range(0, 12), y = R.range(0, 12 - (int)x);
        w.pts.push_back(SurfacePoint(f, Vector3{x / D, y / D, (D - x - y) / D}));
      }
    long p = emitInit(w);
    for (size_t i = 0; i < w.pts.size(); i++)
      if ((long)(i % shards) == shard) point(w, p, w.pts[i]);
    if (shard == 0) helpers(w, p, R), validity(w, p, R);
    for (size_t i = 0; i < w.pts.size(); i++)
      for (size_t k = 0; k < w.pts.size(); k++)
        if ((long)((i * w.pts.size() + k) % shards) == shard) pairEv(w, p, w.pts[i], w.pts[k], false);
    std::vector<BarycentricVector> vs;
    for (Vertex v : w.m->vertices()) vs.push_back(BarycentricVector(v));
    for (Edge e : w.m->edges()) {
      long x = R.range(-12, 12);
      vs.push_back(BarycentricVector(e, Vector2{x / D, -x / D}));
    }
    for (Face f : w.m->faces()) {
      for (int i = 0; i < 2; i++) {
        long x = R.range(-12, 12), y = R.range(-12, 12);
        vs.push_back(BarycentricVector(f, Vector3{x / D, y / D, (-x - y) / D}));
      }
      vs.push_back(BarycentricVector(f));
    }
    for (long i = 0; i < vecs; i++) {
      BarycentricVector &x = vs[R.below(vs.size())], &y = vs[R.chance(5) ? (size_t)(&x - &vs[0]) : R.below(vs.size())];
      vecEv(w, p, x, y, R);
    }
    w.g.reset();
  }
  done();
  _exit(0);
}
