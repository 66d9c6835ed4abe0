// Intrinsic triangulations (both implementations) over small input surfaces, with the numbers the specs look at written as integers (millionths).
#pragma once
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h"
#include "geometrycentral/surface/signpost_intrinsic_triangulation.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "trimesh.h"
#include <memory>
#include <cmath>
namespace vt {
typedef std::vector<long> L;
typedef std::vector<L> LL;
inline long hid(Halfedge h) { return h == Halfedge() ? 0 : (long)h.getIndex() + 1; }
inline long vid(Vertex v) { return v == Vertex() ? 0 : (long)v.getIndex() + 1; }
inline double real(Rng& R) { return (double)R.below(1 << 20) / (1 << 20); }
inline long mu(double x) { return std::isfinite(x) && std::fabs(x) < 2000 ? std::lround(x * 1e6) : 2000000000L; }
inline double heronArea(double a, double b, double c) {
  double s = (a + b + c) / 2, q = s * (s - a) * (s - b) * (s - c);
  return q > 0 ? std::sqrt(q) : 0;
}
inline double angleOpp(double o, double a, double b) { return std::acos(std::max(-1., std::min(1., (a * a + b * b - o * o) / (2 * a * b)))); }

inline bool simpleMesh(ManifoldSurfaceMesh& m) {
  std::set<std::pair<size_t, size_t>> E;
  for (Edge e : m.edges()) {
    size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex();
    if (a == b || !E.insert(std::minmax(a, b)).second) return false;
  }
  std::set<std::set<size_t>> F;
  for (Face f : m.faces()) {
    std::set<size_t> s;
    for (Vertex v : f.adjacentVertices()) s.insert(v.getIndex());
    if (!F.insert(s).second) return false;
  }
  return true;
}
// a grid with jittered interior and random diagonals
inline std::unique_ptr<ManifoldSurfaceMesh> flatMesh(Rng& R, std::vector<Vector3>& pos) {
  int n = R.range(2, 4), m = R.range(2, 4);
  pos.clear();
  for (int j = 0; j < m; j++)
    for (int i = 0; i < n; i++) pos.push_back(Vector3{i + .5 * (real(R) - .5), j + .5 * (real(R) - .5), 0});
  Polys P;
  auto id = [&](int i, int j) { return (size_t)(j * n + i); };
  auto cr = [&](size_t a, size_t b, size_t c) {
    Vector3 u = pos[b] - pos[a], v = pos[c] - pos[a];
    return u.x * v.y - u.y * v.x;
  };
  for (int j = 0; j + 1 < m; j++)
    for (int i = 0; i + 1 < n; i++) {
      size_t a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
      bool one = R.range(0, 1);
      if (one && !(cr(a, b, c) > .05 && cr(a, c, d) > .05)) one = false;
      if (!one && !(cr(a, b, d) > .05 && cr(b, c, d) > .05)) one = true;
      if (one)
        P.push_back({a, b, c}), P.push_back({a, c, d});
      else
        P.push_back({a, b, d}), P.push_back({b, c, d});
    }
  return std::unique_ptr<ManifoldSurfaceMesh>(new ManifoldSurfaceMesh(P));
}

struct SurfWorld {
  std::unique_ptr<ManifoldSurfaceMesh> in;
  std::unique_ptr<EdgeLengthGeometry> geo;
  std::unique_ptr<IntrinsicTriangulation> T;
  std::vector<Vector3> pos; // empty unless flat
  bool integer = false;
  ManifoldSurfaceMesh& m() { return *T->intrinsicMesh; }
  void make(Rng& R, bool flat, bool integer_, int nOps = 6, size_t maxV = 10, size_t maxF = 26) {
    T.reset(), geo.reset(), in.reset(), pos.clear();
    integer = integer_;
    while (true) {
      in = flat ? flatMesh(R, pos) : randomTriMesh(R, R.range(0, nOps), maxV);
      if (in->nFaces() > maxF || !simpleMesh(*in)) continue;
      EdgeData<double> len(*in);
      double spread = R.pick(std::vector<double>{.2, .5, .9});
      for (Edge e : in->edges())
        len[e] = flat ? norm(pos[e.firstVertex().getIndex()] - pos[e.secondVertex().getIndex()]) : 1 + spread * real(R);
      // stay away from triangles so thin that rounding decides what is possible
      bool ok = true;
      for (Face f : in->faces()) {
        std::vector<double> l;
        for (Edge e : f.adjacentEdges()) l.push_back(len[e]);
        if (heronArea(l[0], l[1], l[2]) < .02) ok = false;
      }
      if (!ok) continue;
      geo.reset(new EdgeLengthGeometry(*in, len));
      break;
    }
    if (integer)
      T.reset(new IntegerCoordinatesIntrinsicTriangulation(*in, *geo));
    else
      T.reset(new SignpostIntrinsicTriangulation(*in, *geo));
  }
  // is this edge, judged by its ends and length, an edge of the input?
  bool onInput(Edge e) {
    for (Edge x : in->edges()) {
      size_t a = x.firstVertex().getIndex(), b = x.secondVertex().getIndex(), c = e.firstVertex().getIndex(), d = e.secondVertex().getIndex();
      if (std::minmax(a, b) == std::minmax(c, d) && std::fabs(T->edgeLengths[e] - geo->edgeLengths[x]) < 1e-6) return true;
    }
    return false;
  }
  static L key(const SurfacePoint& p) {
    return p.type == SurfacePointType::Vertex ? L{1, vid(p.vertex)}
           : p.type == SurfacePointType::Edge ? L{2, (long)p.edge.getIndex() + 1}
                                              : L{3, (long)p.face.getIndex() + 1};
  }
  static L coords(const SurfacePoint& p) {
    return p.type == SurfacePointType::Vertex ? L{}
           : p.type == SurfacePointType::Edge ? L{mu(1 - p.tEdge), mu(p.tEdge)}
                                              : L{mu(p.faceCoords.x), mu(p.faceCoords.y), mu(p.faceCoords.z)};
  }
  static bool validPoint(const SurfacePoint& p, ManifoldSurfaceMesh& mm) {
    size_t n = p.type == SurfacePointType::Vertex ? mm.nVerticesCapacity() : p.type == SurfacePointType::Edge ? mm.nEdgesCapacity() : mm.nFacesCapacity();
    size_t i = p.type == SurfacePointType::Vertex ? p.vertex.getIndex() : p.type == SurfacePointType::Edge ? p.edge.getIndex() : p.face.getIndex();
    if (i >= n) return false;
    return p.type == SurfacePointType::Vertex ? !p.vertex.isDead() : p.type == SurfacePointType::Edge ? !p.edge.isDead() : !p.face.isDead();
  }
  // distance between two points of a mesh that share a face; negative when they share none
  static double dist(SurfacePoint a, SurfacePoint b, EdgeData<double>& len) {
    Face f = sharedFace(a, b);
    if (f == Face()) return -1;
    Vector3 d = b.inFace(f).faceCoords - a.inFace(f).faceCoords;
    return displacementLength(d, Vector3{len[f.halfedge().next().edge()], len[f.halfedge().next().next().edge()], len[f.halfedge().edge()]});
  }
  // the same where a vertex or edge can appear in a face more than once: one distance for each way to see the two points in one face
  static std::vector<Vector3> seenIn(const SurfacePoint& p, Face f) {
    std::vector<Vector3> r;
    Halfedge h = f.halfedge();
    for (int k = 0; k < 3; k++, h = h.next()) {
      Vector3 c = Vector3::zero();
      if (p.type == SurfacePointType::Vertex && h.vertex() == p.vertex) c[k] = 1, r.push_back(c);
      if (p.type == SurfacePointType::Edge && h.edge() == p.edge) {
        double t = h == p.edge.halfedge() ? p.tEdge : 1 - p.tEdge;
        c[k] = 1 - t, c[(k + 1) % 3] = t;
        r.push_back(c);
      }
    }
    if (p.type == SurfacePointType::Face && p.face == f) r.push_back(p.faceCoords);
    return r;
  }
  static std::vector<double> dists(const SurfacePoint& a, const SurfacePoint& b, EdgeData<double>& len, ManifoldSurfaceMesh& on) {
    std::vector<double> r;
    for (Face f : on.faces()) {
      Halfedge h = f.halfedge();
      Vector3 l{len[h.next().edge()], len[h.next().next().edge()], len[h.edge()]};
      for (Vector3 x : seenIn(a, f))
        for (Vector3 y : seenIn(b, f)) {
          double d = displacementLength(y - x, l);
          bool known = false;
          for (double z : r) known = known || std::fabs(z - d) < 1e-7;
          if (!known) r.push_back(d);
        }
    }
    return r;
  }
  static L lengths(const std::vector<SurfacePoint>& p, EdgeData<double>& len, ManifoldSurfaceMesh& on) {
    std::vector<double> s{0};
    for (size_t i = 0; i + 1 < p.size() && s.size() < 500; i++) {
      if (!validPoint(p[i], on) || !validPoint(p[i + 1], on)) return {};
      std::vector<double> n;
      for (double d : dists(p[i], p[i + 1], len, on))
        for (double x : s) n.push_back(x + d);
      s = n;
    }
    L r;
    for (double x : s) r.push_back(mu(x));
    return r;
  }
  Vector3 flatPos(const SurfacePoint& p) {
    if (p.type == SurfacePointType::Vertex) return pos[p.vertex.getIndex()];
    if (p.type == SurfacePointType::Edge) {
      Halfedge h = p.edge.halfedge();
      return (1 - p.tEdge) * pos[h.vertex().getIndex()] + p.tEdge * pos[h.tipVertex().getIndex()];
    }
    Vector3 r = Vector3::zero();
    int k = 0;
    for (Vertex v : p.face.adjacentVertices()) r += p.faceCoords[k++] * pos[v.getIndex()];
    return r;
  }
  struct Path {
    LL pts;
    double len = 0;
    double endGap = 0; // distance of the two ends from where they belong
  };
  Path path(std::vector<SurfacePoint> p, EdgeData<double>& len, ManifoldSurfaceMesh& on, SurfacePoint from, SurfacePoint to) {
    Path r;
    for (size_t i = 0; i < p.size(); i++) {
      if (!validPoint(p[i], on)) {
        r.endGap = r.len = 1999;
        return r;
      }
      r.pts.push_back(key(p[i]));
      if (i) {
        double d = dist(p[i - 1], p[i], len);
        r.len += d < 0 ? 1999 : d;
      }
    }
    if (p.empty()) {
      r.endGap = 1999;
      return r;
    }
    double g1 = dist(p.front(), from, len), g2 = dist(p.back(), to, len);
    r.endGap = g1 < 0 || g2 < 0 ? 1999 : std::max(g1, g2);
    return r;
  }
  J mesh(ManifoldSurfaceMesh& g) {
    size_t H = 0, V = 0;
    for (Halfedge h : g.halfedges()) H = std::max(H, h.getIndex() + 1);
    for (Vertex v : g.vertices()) V = std::max(V, v.getIndex() + 1);
    L nx(H, 0), tv(H, 0), fc(H, 0), vh(V, 0);
    for (Halfedge h : g.halfedges()) {
      nx[h.getIndex()] = hid(h.next()), tv[h.getIndex()] = vid(h.vertex());
      fc[h.getIndex()] = h.isInterior() ? (long)h.face().getIndex() + 1 : 0;
    }
    for (Vertex v : g.vertices()) vh[v.getIndex()] = hid(v.halfedge());
    L fh;
    for (Face f : g.faces()) {
      fh.resize(std::max(fh.size(), f.getIndex() + 1), 0);
      fh[f.getIndex()] = hid(f.halfedge());
    }
    return J()("nx", nx)("tv", tv)("fc", fc)("vh", vh)("fh", fh);
  }
  void putInput(J& j) {
    j("in", mesh(*in))("flat", (int)!pos.empty())("kind", (int)integer);
  }
  // what C15 looks at; traces only when asked
  J state(bool traces) {
    ManifoldSurfaceMesh& g = m();
    J j = mesh(g);
    size_t nE = 0, nF = 0, nH = 0, nV = 0;
    for (Halfedge h : g.halfedges()) nH = std::max(nH, h.getIndex() + 1), nE = std::max(nE, h.edge().getIndex() + 1);
    for (Face f : g.faces()) nF = std::max(nF, f.getIndex() + 1);
    for (Vertex v : g.vertices()) nV = std::max(nV, v.getIndex() + 1);
    EdgeData<double>& len = T->edgeLengths;
    L le(nE, 0), mk(nE, 0), ar(nF, 0), an(nH, 0), as(nV, 0), fl(nE, 0);
    LL loc(nV, L{0, 0}), lc(nV);
    for (Edge e : g.edges()) {
      size_t i = e.getIndex();
      le[i] = mu(len[e]);
      mk[i] = T->markedEdges.size() > 0 && T->markedEdges[e];
      if (!pos.empty()) {
        SurfacePoint a = T->vertexLocations[e.firstVertex()], b = T->vertexLocations[e.secondVertex()];
        fl[i] = validPoint(a, *in) && validPoint(b, *in) ? mu(norm(flatPos(a) - flatPos(b))) : -1;
      }
    }
    for (Face f : g.faces()) {
      Halfedge h = f.halfedge();
      double a = len[h.edge()], b = len[h.next().edge()], c = len[h.next().next().edge()];
      double A = heronArea(a, b, c), m = std::max({a, b, c});
      ar[f.getIndex()] = A > 1e-9 * m * m ? std::max(1L, mu(A)) : mu(A);
      an[h.getIndex()] = mu(angleOpp(b, c, a)), an[h.next().getIndex()] = mu(angleOpp(c, a, b)), an[h.next().next().getIndex()] = mu(angleOpp(a, b, c));
    }
    for (Vertex v : g.vertices()) {
      size_t i = v.getIndex();
      as[i] = mu(T->vertexAngleSums[v]);
      loc[i] = key(T->vertexLocations[v]), lc[i] = coords(T->vertexLocations[v]);
    }
    j("len", le)("mk", mk)("ar", ar)("an", an)("as", as)("loc", loc)("lc", lc)("fl", fl);
    std::vector<LL> tr(nE), ti;
    L tl(nE, 0), tg(nE, 0), tig;
    LL til;
    if (!traces) tr.clear(), tl.clear(), tg.clear();
    if (traces) {
      EdgeData<std::vector<SurfacePoint>> X = T->traceAllIntrinsicEdgesAlongInput();
      for (Edge e : g.edges()) {
        Path p = path(X[e], geo->edgeLengths, *in, T->vertexLocations[e.halfedge().vertex()], T->vertexLocations[e.halfedge().tipVertex()]);
        tr[e.getIndex()] = p.pts, tl[e.getIndex()] = mu(p.len), tg[e.getIndex()] = mu(p.endGap);
      }
      for (Edge e : in->edges()) {
        std::vector<SurfacePoint> y = T->traceInputHalfedgeAlongIntrinsic(e.halfedge());
        Path p = path(y, len, g, SurfacePoint(g.vertex(e.firstVertex().getIndex())), SurfacePoint(g.vertex(e.secondVertex().getIndex())));
        ti.push_back(p.pts), til.push_back(lengths(y, len, g)), tig.push_back(mu(p.endGap));
      }
    }
    j("tr", tr)("tl", tl)("tg", tg)("ti", ti)("til", til)("tig", tig);
    return j;
  }
};
} // namespace vt
