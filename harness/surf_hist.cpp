// Records histories of edits of an intrinsic triangulation (kind=0 signposts, kind=1 integer coordinates), for specs/SurfaceTrace.tla (C15).
#include "surfworld.h"
using namespace vt;

struct Hist {
  SurfWorld w;
  long at = 0, arg = 0;
  bool traces = true;
  LL cb;
  long init() {
    ManifoldSurfaceMesh& g = w.m();
    w.T->edgeFlipCallbackList.push_back([this](Edge e) { cb.push_back({1, (long)e.getIndex() + 1}); });
    w.T->faceInsertionCallbackList.push_back([this](Face f, Vertex v) { cb.push_back({2, (long)f.getIndex() + 1, vid(v)}); });
    w.T->edgeSplitCallbackList.push_back([this](Edge e, Halfedge a, Halfedge b) { cb.push_back({3, (long)e.getIndex() + 1, hid(a), hid(b)}); });
    L il, ia, iar;
    for (Edge e : w.in->edges()) il.push_back(mu(w.geo->edgeLengths[e]));
    J j = J()("op", "init");
    w.putInput(j);
    (void)g;
    return at = emit(j("il", il)("s", w.state(traces)));
  }
  void log(J j) {
    at = emit(j("p", at)("cb", cb)("s", w.state(traces)));
    cb.clear();
  }
  void ab(const char* what, long a, long b) {
    arg = a;
    std::string s = J()("of", what)("p", at)("a", a)("b", b).str();
    about(s.substr(1, s.size() - 2));
    cpuLimit(10);
  }
  template <class F>
  bool guard(const char* what, F f) {
    try {
      f();
      return true;
    } catch (std::exception& x) {
      emit(J()("op", "throw")("of", what)("why", std::string(x.what()))("arg", arg)("p", at));
      return false;
    }
  }
  bool flip(size_t k, bool del) {
    Edge e = w.m().edge(k);
    ab("flip", (long)k + 1, del);
    return guard("flip", [&] {
      bool r = del ? w.T->flipEdgeIfNotDelaunay(e) : w.T->flipEdgeIfPossible(e);
      log(J()("op", r ? "flip" : "same")("of", "flip")("e", k + 1)("del", (int)del));
    });
  }
  void eq(J& j, SurfacePoint q, Vertex v) {
    double d = SurfWorld::validPoint(q, *w.in) && SurfWorld::validPoint(w.T->vertexLocations[v], *w.in)
                   ? SurfWorld::dist(q, w.T->vertexLocations[v], w.geo->edgeLengths)
                   : -1;
    j("gap", d < 0 ? 2000000000L : mu(d));
  }
  bool splitFace(Face f, Vector3 b) {
    ab("splitF", (long)f.getIndex() + 1, 0);
    return guard("splitF", [&] {
      SurfacePoint q = w.T->equivalentPointOnInput(SurfacePoint(f, b));
      long id = (long)f.getIndex() + 1;
      Vertex v = w.T->insertVertex(SurfacePoint(f, b));
      J j = J()("op", "splitF")("f", id)("v", vid(v));
      eq(j, q, v);
      log(j);
    });
  }
  bool insertE(Edge e, double t) {
    ab("splitE", hid(e.halfedge()), 0);
    return guard("splitE", [&] {
      SurfacePoint q = w.T->equivalentPointOnInput(SurfacePoint(e, t));
      long h = hid(e.halfedge());
      Vertex v = w.T->insertVertex(SurfacePoint(e, t));
      J j = J()("op", "splitE")("h", h)("v", vid(v))("r", 0)("t", mu(t));
      eq(j, q, v);
      log(j);
    });
  }
  bool splitEdge(Halfedge h, double t) {
    ab("splitE", hid(h), 0);
    return guard("splitE", [&] {
      SurfacePoint q = w.T->equivalentPointOnInput(SurfacePoint(h, t));
      long id = hid(h);
      Halfedge r = w.T->splitEdge(h, t);
      J j = J()("op", "splitE")("h", id)("v", vid(r.vertex()))("r", hid(r))("t", mu(t));
      eq(j, q, r.vertex());
      log(j);
    });
  }
  bool remove(Vertex v) {
    long id = vid(v);
    ab("remove", id, 0);
    return guard("remove", [&] {
      Face f = w.T->removeInsertedVertex(v);
      if (f != Face()) w.m().compress();
      log(J()("op", f == Face() ? "stay" : "remove")("v", id));
    });
  }
  // a point of the triangulation, its place on the input and (signposts) back
  bool query(Rng& R) {
    ManifoldSurfaceMesh& g = w.m();
    std::vector<Face> fs;
    for (Face f : g.faces()) fs.push_back(f);
    Face f = R.pick(fs);
    Vector3 b{.05 + real(R), .05 + real(R), .05 + real(R)};
    b /= b.x + b.y + b.z;
    SurfacePoint p = R.range(0, 2) ? SurfacePoint(f, b) : SurfacePoint(f.halfedge(), .1 + .8 * real(R));
    ab("query", (long)f.getIndex() + 1, 0);
    return guard("query", [&] {
      SurfacePoint q = w.T->equivalentPointOnInput(p);
      bool ok = SurfWorld::validPoint(q, *w.in);
      long gap = 0, back = 0;
      if (ok && !w.pos.empty()) {
        SurfacePoint pf = p.inSomeFace();
        Vector3 x = Vector3::zero();
        int k = 0;
        for (Vertex v : pf.face.adjacentVertices()) x += pf.faceCoords[k++] * w.flatPos(w.T->vertexLocations[v]);
        gap = mu(norm(x - w.flatPos(q)));
      }
      if (ok && !w.integer) {
        SurfacePoint r = w.T->equivalentPointOnIntrinsic(q);
        double d = SurfWorld::validPoint(r, g) ? SurfWorld::dist(p, r, w.T->edgeLengths) : -1;
        back = d < 0 ? 2000000000L : mu(d);
      }
      emit(J()("op", "query")("at", SurfWorld::key(q))("c", SurfWorld::coords(q))("gap", gap)("back", back)("p", at));
    });
  }
  // vertex data moved between the two meshes
  bool data(Rng& R) {
    ab("data", 0, 0);
    return guard("data", [&] {
      VertexData<double> d(*w.in);
      L iv, ov, bv;
      for (Vertex v : w.in->vertices()) d[v] = R.range(-9, 9), iv.push_back((long)d[v]);
      VertexData<double> s = w.T->sampleFromInput(d);
      size_t n = 0;
      for (Vertex v : w.m().vertices()) n = std::max(n, v.getIndex() + 1);
      ov.assign(n, 0);
      for (Vertex v : w.m().vertices()) ov[v.getIndex()] = mu(s[v]);
      VertexData<double> b = w.T->restrictToInput(s);
      for (Vertex v : w.in->vertices()) bv.push_back(mu(b[v]));
      emit(J()("op", "data")("iv", iv)("ov", ov)("bv", bv)("p", at));
    });
  }
};
static Vector3 rbary(Rng& R) {
  Vector3 b{.15 + real(R), .15 + real(R), .15 + real(R)};
  return b / (b.x + b.y + b.z);
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  int shard = (int)A.num("shard", 0), iters = (int)A.num("iters", 10), len = (int)A.num("len", 14);
  Rng R((uint64_t)A.num("seed", 1) * 15485863 + (uint64_t)shard);
  for (int it = 0; it < iters; it++) {
    Hist h;
    bool integer = R.range(0, 1);
    h.w.make(R, R.range(0, 2) == 0, integer);
    ManifoldSurfaceMesh& m = h.w.m();
    if (R.range(0, 1)) { // mark some edges
      EdgeData<bool> mk(m, false);
      for (Edge e : m.edges()) mk[e] = R.range(0, 4) == 0;
      h.w.T->setMarkedEdges(mk);
    }
    h.init();
    int kinds = R.range(0, 3); // 0: flips only, 1: + insertions in faces, 2,3: + splits of edges
    for (int k = 0; k < len; k++) {
      int o = R.range(0, 11);
      std::vector<Edge> es, se;
      for (Edge e : m.edges()) {
        es.push_back(e);
        if (e.halfedge().isInterior() && e.halfedge().twin().isInterior() && e.halfedge().face() == e.halfedge().twin().face()) continue; // no split there
        // signposts place a vertex on an interior edge they share with the input only up to rounding, so leave those alone
        if (!integer && !e.isBoundary() && (h.w.T->checkEdgeOriginal(e) || h.w.onInput(e))) continue;
        se.push_back(e);
      }
      std::vector<Face> fs;
      for (Face f : m.faces()) fs.push_back(f);
      std::vector<Vertex> vs;
      for (Vertex v : m.vertices())
        if (v.getIndex() >= h.w.in->nVertices()) vs.push_back(v);
      bool ok = true;
      if (kinds >= 1 && o == 0 && vs.size() < 4)
        ok = h.splitFace(R.pick(fs), rbary(R));
      else if (kinds >= 1 && o == 1 && vs.size())
        ok = h.remove(R.pick(vs));
      else if (kinds >= 2 && o <= 3 && vs.size() < 4 && se.size()) {
        Edge e = R.pick(se);
        double t = .15 + .7 * real(R);
        ok = R.range(0, 3) == 0 ? h.insertE(e, t) : h.splitEdge(R.range(0, 1) ? e.halfedge() : e.halfedge().twin(), t);
      } else if (o == 4)
        ok = h.query(R);
      else if (o == 5 && R.range(0, 1))
        ok = h.data(R);
      else
        ok = h.flip(R.pick(es).getIndex(), R.range(0, 4) == 0);
      if (!ok) break;
    }
  }
  vt::done();
  _exit(0);
}
