// Records straight paths traced over small surfaces, for specs/TraceTrace.tla (C33).
#include "geometrycentral/surface/trace_geodesic.h"
#include "surfworld.h"
using namespace vt;

struct Walker {
  SurfWorld w;
  long at = 0;
  EdgeLengthGeometry& G() { return *w.geo; }
  double len(Edge e) { return G().edgeLengths[e]; }
  // positions of the corners of h's face with h along the x axis: tail, tip, third
  std::array<Vector2, 3> lay(Halfedge h) {
    double a = len(h.edge()), b = len(h.next().edge()), c = len(h.next().next().edge());
    double x = (a * a + c * c - b * b) / (2 * a), y2 = c * c - x * x;
    return {Vector2{0, 0}, Vector2{a, 0}, Vector2{x, y2 > 0 ? std::sqrt(y2) : 0}};
  }
  Vector2 at2(const SurfacePoint& p, Halfedge h, bool& ok) {
    auto q = lay(h);
    std::vector<Vector3> s = SurfWorld::seenIn(p, h.face());
    if (s.size() != 1) {
      ok = false;
      return Vector2::zero();
    }
    // coordinates are counted from face.halfedge()
    int k = 0;
    for (Halfedge x = h.face().halfedge(); x != h; x = x.next()) k++;
    Vector3 c = s[0];
    return q[0] * c[k] + q[1] * c[(k + 1) % 3] + q[2] * c[(k + 2) % 3];
  }
  // direction of a segment inside one face, measured from h
  long dir(const SurfacePoint& a, const SurfacePoint& b, Halfedge h) {
    bool ok = true;
    Vector2 d = at2(b, h, ok) - at2(a, h, ok);
    return ok ? mu(std::atan2(d.y, d.x)) : 2000000000L;
  }
  // ... measured from an edge's first halfedge, f one of the faces at the edge
  long dirE(const SurfacePoint& a, const SurfacePoint& b, Edge e, Face f) {
    Halfedge h = e.halfedge();
    if (h.isInterior() && h.face() == f) return dir(a, b, h);
    bool ok = true;
    Vector2 d = at2(a, h.twin(), ok) - at2(b, h.twin(), ok);
    return ok ? mu(std::atan2(d.y, d.x)) : 2000000000L;
  }
  double between(const SurfacePoint& a, const SurfacePoint& b) {
    std::vector<double> d = SurfWorld::dists(a, b, G().edgeLengths, *w.in);
    double m = -1;
    for (double x : d) m = std::max(m, x);
    return m;
  }
  SurfacePoint snap(SurfacePoint p) {
    const double eps = 2e-5;
    if (p.type == SurfacePointType::Face) {
      Halfedge h = p.face.halfedge();
      for (int k = 0; k < 3; k++, h = h.next()) {
        if (p.faceCoords[k] > 1 - eps) return SurfacePoint(h.vertex());
      }
      h = p.face.halfedge();
      for (int k = 0; k < 3; k++, h = h.next())
        if (p.faceCoords[(k + 2) % 3] < eps) return SurfacePoint(h, p.faceCoords[(k + 1) % 3] / (p.faceCoords[k] + p.faceCoords[(k + 1) % 3]));
    } else if (p.type == SurfacePointType::Edge) {
      if (p.tEdge < eps) return SurfacePoint(p.edge.firstVertex());
      if (p.tEdge > 1 - eps) return SurfacePoint(p.edge.secondVertex());
    }
    return p;
  }
  long gap(SurfacePoint a, SurfacePoint b) {
    if (!SurfWorld::validPoint(a, *w.in) || !SurfWorld::validPoint(b, *w.in)) return 2000000000L;
    double m = 1e9;
    for (SurfacePoint x : {a, snap(a)})
      for (SurfacePoint y : {b, snap(b)})
        for (double d : SurfWorld::dists(x, y, G().edgeLengths, *w.in)) m = std::min(m, d);
    return mu(m);
  }
  void init() {
    L il, an;
    for (Edge e : w.in->edges()) il.push_back(mu(len(e)));
    an.assign(2 * w.in->nEdges(), 0);
    for (Face f : w.in->faces())
      for (Halfedge h : f.adjacentHalfedges()) an[h.getIndex()] = mu(angleOpp(len(h.next().edge()), len(h.edge()), len(h.next().next().edge())));
    at = emit(J()("op", "init")("m", w.mesh(*w.in))("il", il)("an", an));
  }
  static L loc(const SurfacePoint& p) { return SurfWorld::key(p); }
  void put(J& j, const TraceGeodesicResult& r) {
    LL keys, cs;
    L seg, ain, aout;
    const auto& p = r.pathPoints;
    bool ok = SurfWorld::validPoint(r.endPoint, *w.in);
    for (auto& x : p) ok = ok && SurfWorld::validPoint(x, *w.in);
    long ed = mu(std::atan2(r.endingDir.y, r.endingDir.x)), el = 0, fd = 2000000000L, fh = 0, wa = 0, eg = 0;
    if (ok) {
      for (size_t k = 0; k < p.size(); k++) keys.push_back(loc(p[k])), cs.push_back(SurfWorld::coords(p[k]));
      for (size_t k = 0; k + 1 < p.size(); k++) {
        double d = between(p[k], p[k + 1]);
        seg.push_back(d < 0 ? 2000000000L : mu(d));
        Face f = sharedFace(p[k], p[k + 1]);
        if (f == Face()) continue;
        if (k + 2 < p.size() && p[k + 1].type == SurfacePointType::Edge) ain.push_back(dirE(p[k], p[k + 1], p[k + 1].edge, f));
        if (k > 0 && p[k].type == SurfacePointType::Edge) aout.push_back(dirE(p[k], p[k + 1], p[k].edge, f));
        if (k == 0) {
          if (p[0].type == SurfacePointType::Face)
            fd = dir(p[0], p[1], f.halfedge());
          else if (p[0].type == SurfacePointType::Edge)
            fd = dirE(p[0], p[1], p[0].edge, f);
          else
            for (Halfedge h : f.adjacentHalfedges())
              if (h.vertex() == p[0].vertex) fh = hid(h), wa = dir(p[0], p[1], h);
        }
        if (k + 2 == p.size()) el = p[k + 1].type == SurfacePointType::Edge ? dirE(p[k], p[k + 1], p[k + 1].edge, f) : dir(p[k], p[k + 1], f.halfedge());
      }
      if (p.size()) eg = gap(p.back(), r.endPoint);
    }
    j("valid", (int)ok)("pts", keys)("cs", cs)("seg", seg)("ain", ain)("aout", aout)("ed", ed)("el", el)("fd", fd)("fh", fh)("wa", wa)("eg", eg)("hit", (int)r.hitBoundary)("len", mu(r.length));
  }
  SurfacePoint pick(Rng& R, bool inner) {
    ManifoldSurfaceMesh& m = *w.in;
    int k = inner ? 2 : R.range(0, 2);
    if (k == 0) return SurfacePoint(m.vertex(R.below(m.nVertices())));
    if (k == 1) return SurfacePoint(m.edge(R.below(m.nEdges())), .05 + .9 * real(R));
    Vector3 b{.05 + real(R), .05 + real(R), .05 + real(R)};
    return SurfacePoint(m.face(R.below(m.nFaces())), b / (b.x + b.y + b.z));
  }
  void trace(Rng& R) {
    ManifoldSurfaceMesh& m = *w.in;
    SurfacePoint s = pick(R, false);
    bool bary = s.type == SurfacePointType::Face && R.range(0, 1);
    double lens[] = {0, .01, .3, .9, 1.7, 4, 12};
    double l = lens[R.below(7)];
    if (l > 0) l *= .7 + .6 * real(R);
    // the direction as a part of the whole range of directions (a half turn at boundary vertices)
    bool half = s.type == SurfacePointType::Vertex && s.vertex.isBoundary();
    long q = R.range(0, 5) == 0 ? (long)R.range(0, 4) * 250 : R.range(0, half ? 1000 : 999);
    if (!half && q == 1000) q = 0;
    double a = (half ? PI : 2 * PI) * (double)q / 1000;
    Vector2 d{std::cos(a), std::sin(a)};
    if (half && q == 1000) d = Vector2{-1, 0};
    if (half && q == 0) d = Vector2{1, 0};
    TraceOptions o;
    o.includePath = true;
    EdgeData<bool> bar(m, false);
    L bl;
    if (R.range(0, 2) == 0) {
      for (Edge e : m.edges()) {
        if (s.type == SurfacePointType::Edge && s.edge == e) continue;
        // a path that runs along an edge may be counted to either side
        if (R.range(0, 5) == 0) bar[e] = true, bl.push_back((long)e.getIndex() + 1);
      }
      o.barrierEdges = &bar;
    }
    long mi = -1;
    if (R.range(0, 3) == 0) mi = R.range(0, 4), o.maxIters = (size_t)mi;
    std::string ss = J()("of", "trace")("p", at)("q", q)("l", mu(l)).str();
    about(ss.substr(1, ss.size() - 2));
    cpuLimit(10);
    try {
      TraceGeodesicResult r;
      if (bary) {
        auto P = lay(s.face.halfedge());
        Vector2 u = d * l, x = P[1], y = P[2];
        double det = x.x * y.y - x.y * y.x, b1 = (u.x * y.y - u.y * y.x) / det, b2 = (x.x * u.y - x.y * u.x) / det;
        r = traceGeodesic(G(), s.face, s.faceCoords, Vector3{-b1 - b2, b1, b2}, o);
      } else
        r = traceGeodesic(G(), s, d * l, o);
      J j = J()("op", "trace")("p", at)("at", loc(s))("q", q)("want", mu(l))("bar", bl)("mi", mi)("half", (int)half);
      put(j, r);
      // and back
      long bg = 0;
      bool doBack = l > 0 && SurfWorld::validPoint(r.endPoint, m) && r.length > 1e-4;
      if (doBack) {
        TraceOptions b;
        b.includePath = true;
        TraceGeodesicResult rb = traceGeodesic(G(), r.endPoint, -r.endingDir * r.length, b);
        bg = gap(rb.endPoint, s);
      }
      emit(j("back", bg)("doBack", (int)doBack));
    } catch (std::exception& x) {
      emit(J()("op", "throw")("of", "trace")("why", std::string(x.what()))("p", at));
    }
  }
  // a path to a vertex, found by reversing one from the vertex, tidied to end there
  void trim(Rng& R) {
    ManifoldSurfaceMesh& m = *w.in;
    Vertex v = m.vertex(R.below(m.nVertices()));
    double lens[] = {.3, .9, 1.7, 4};
    double l = lens[R.below(4)] * (.7 + .6 * real(R)), a = (v.isBoundary() ? PI : 2 * PI) * (.02 + .96 * real(R));
    about("\"of\":\"trim\"");
    cpuLimit(10);
    try {
      TraceOptions o;
      o.includePath = true;
      TraceGeodesicResult f = traceGeodesic(G(), SurfacePoint(v), Vector2{std::cos(a), std::sin(a)} * l, o);
      if (f.endPoint.type != SurfacePointType::Face) return; // left the surface
      double slack[] = {0, 1e-9, -1e-9};
      TraceGeodesicResult r = traceGeodesic(G(), f.endPoint, -f.endingDir * (l + slack[R.below(3)]), o);
      bool ok = trimTraceResult(r, v);
      r.pathPoints.push_back(SurfacePoint(v));
      LL keys;
      double sum = 0;
      for (size_t k = 0; k < r.pathPoints.size(); k++) {
        keys.push_back(loc(r.pathPoints[k]));
        if (k) {
          double d = between(r.pathPoints[k - 1], r.pathPoints[k]);
          sum += d < 0 ? 1999 : d;
        }
      }
      // the crossings of the path there, backwards
      LL there;
      for (size_t k = f.pathPoints.size(); k-- > 0;) there.push_back(loc(f.pathPoints[k]));
      emit(J()("op", "trim")("p", at)("v", vid(v))("want", mu(l))("ok", (int)ok)("pts", keys)("there", there)("len", mu(sum)));
    } catch (std::exception& x) {
      emit(J()("op", "throw")("of", "trim")("why", std::string(x.what()))("p", at));
    }
  }
};

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  int iters = (int)A.num("iters", 10), len = (int)A.num("len", 40);
  Rng R((uint64_t)A.num("seed", 1) * 15485863 + (uint64_t)A.num("shard", 0));
  for (int it = 0; it < iters; it++) {
    Walker h;
    h.w.make(R, R.range(0, 3) == 0, true);
    h.w.geo->requireEdgeLengths();
    h.init();
    for (int k = 0; k < len; k++)
      if (R.range(0, 4))
        h.trace(R);
      else
        h.trim(R);
  }
  vt::done();
  _exit(0);
}
