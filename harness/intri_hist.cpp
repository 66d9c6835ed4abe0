// Records histories of an integer-coordinates intrinsic triangulation with, after every change, its connectivity, crossing counts, roundabouts and the
// curve traced for every input halfedge, for specs/NormalTrace.tla (C14).
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h"
#include "trimesh.h"
using namespace vt;
typedef std::vector<long> L;
typedef std::vector<L> LL;
static long hid(Halfedge h) { return h == Halfedge() ? 0 : (long)h.getIndex() + 1; }
static long vid(Vertex v) { return v == Vertex() ? 0 : (long)v.getIndex() + 1; }

static double real(Rng& R) { return (double)R.below(1 << 20) / (1 << 20); }

struct World {
  std::unique_ptr<ManifoldSurfaceMesh> in;
  std::unique_ptr<EdgeLengthGeometry> geo;
  std::unique_ptr<IntegerCoordinatesIntrinsicTriangulation> T;
};
static World make(Rng& R, std::unique_ptr<ManifoldSurfaceMesh> m, double spread) {
  World w;
  w.in = std::move(m);
  w.in->compress();
  EdgeData<double> len(*w.in);
  for (Edge e : w.in->edges()) len[e] = 1 + spread * real(R);
  w.geo.reset(new EdgeLengthGeometry(*w.in, len));
  w.T.reset(new IntegerCoordinatesIntrinsicTriangulation(*w.in, *w.geo));
  return w;
}
static J state(World& w) {
  ManifoldSurfaceMesh& m = *w.T->intrinsicMesh;
  NormalCoordinates& nc = w.T->normalCoordinates;
  size_t H = 0;
  for (Halfedge h : m.halfedges()) H = std::max(H, h.getIndex() + 1);
  L nx(H, 0), tv(H, 0), fc(H, 0), rb(H, 0), n(H / 2, 0);
  for (Halfedge h : m.halfedges()) {
    nx[h.getIndex()] = hid(h.next()), tv[h.getIndex()] = vid(h.vertex());
    fc[h.getIndex()] = h.isInterior() ? (long)h.face().getIndex() + 1 : 0;
    rb[h.getIndex()] = nc.roundabouts[h];
    n[h.edge().getIndex()] = nc[h.edge()];
  }
  size_t V = 0;
  for (Vertex v : m.vertices()) V = std::max(V, v.getIndex() + 1);
  L vh(V, 0), rd(V, 0);
  LL loc(V, L{0, 0});
  for (Vertex v : m.vertices()) {
    size_t i = v.getIndex();
    vh[i] = hid(v.halfedge()), rd[i] = nc.roundaboutDegrees[v];
    SurfacePoint& p = w.T->vertexLocations[v];
    loc[i] = p.type == SurfacePointType::Vertex ? L{1, vid(p.vertex)}
             : p.type == SurfacePointType::Edge ? L{2, (long)p.edge.getIndex() + 1}
                                                : L{3, (long)p.face.getIndex() + 1};
  }
  std::vector<LL> wd, ix; // per input halfedge, per component: halfedges crossed (or minus the halfedge followed), positions
  std::vector<LL> bi;
  L id;
  for (size_t k = 0; k < 2 * w.in->nEdges(); k++) {
    Halfedge h = w.in->halfedge(k);
    NormalCoordinatesCompoundCurve c = w.T->traceInputHalfedge(h);
    LL a, b;
    long who = 0;
    for (size_t q = 0; q < c.components.size(); q++) {
      L x, y;
      for (auto& p : c.components[q].crossings) {
        x.push_back(p.first < 0 ? -hid(p.second) : hid(p.second));
        y.push_back(p.first);
      }
      a.push_back(x), b.push_back(y);
      // the same piece traced both ways from one of its crossings
      const auto& cr = c.components[q].crossings;
      if (cr[0].first >= 0) {
        size_t j = (wd.size() * 7 + q * 3 + 5) % cr.size();
        NormalCoordinatesCurve bc;
        int mid = 0;
        std::tie(bc, mid) = w.T->normalCoordinates.topologicalTraceBidirectional(cr[j].second, cr[j].first);
        L bx, by;
        for (auto& p : bc.crossings) bx.push_back(hid(p.second)), by.push_back(p.first);
        bi.push_back({{(long)wd.size() + 1, (long)q + 1, (long)j, mid}, bx, by});
      }
      long one = hid(w.T->identifyInputEdge(c.components[q]));
      if (q == 0 || one != hid(h)) who = one;
    }
    wd.push_back(a), ix.push_back(b), id.push_back(who);
  }
  long sv = (long)w.T->nSubdividedVertices();
  return J()("nx", nx)("tv", tv)("fc", fc)("vh", vh)("n", n)("rb", rb)("rd", rd)("loc", loc)("w", wd)("ix", ix)("id", id)("sv", sv)("bi", bi);
}
struct Hist {
  World w;
  long at = 0;
  long init() {
    ManifoldSurfaceMesh& m = *w.in;
    L nx, tv, vh, fi;
    for (size_t k = 0; k < 2 * m.nEdges(); k++) {
      Halfedge h = m.halfedge(k);
      nx.push_back(hid(h.next())), tv.push_back(vid(h.vertex())), fi.push_back(h.isInterior());
    }
    for (Vertex v : m.vertices()) vh.push_back(hid(v.halfedge()));
    return at = emit(J()("op", "init")("inx", nx)("itv", tv)("ivh", vh)("ifi", fi)("s", state(w)));
  }
  void log(J j) { at = emit(j("p", at)("s", state(w))); }
  void watch() {
    w.T->edgeFlipCallbackList.push_back([this](Edge e) { log(J()("op", "flip")("e", e.getIndex() + 1)); });
  }
  void ab(const char* what, long a, long b) {
    std::string s = J()("of", what)("p", at)("a", a)("b", b).str();
    about(s.substr(1, s.size() - 2));
    cpuLimit(10);
  }
  template <class F>
  bool guard(const char* what, F f) {
    try {
      f();
      return true;
    } catch (std::exception& x) {
      emit(J()("op", "throw")("of", what)("why", std::string(x.what()))("p", at));
      return false;
    }
  }
  bool flip(size_t k, bool del) {
    Edge e = w.T->intrinsicMesh->edge(k);
    ab("flip", (long)k + 1, del);
    return guard("flip", [&] {
      long was = at;
      bool r = del ? w.T->flipEdgeIfNotDelaunay(e) : w.T->flipEdgeIfPossible(e);
      if (!r)
        log(J()("op", "same"));
      else if (was == at)
        emit(J()("op", "throw")("of", "flip")("why", "no callback")("p", at));
    });
  }
  bool splitFace(Face f, Vector3 b) {
    ab("splitF", (long)f.getIndex() + 1, 0);
    return guard("splitF", [&] {
      long h = hid(f.halfedge());
      Vertex v = w.T->insertVertex(SurfacePoint(f, b));
      log(J()("op", "splitF")("h", h)("v", vid(v)));
    });
  }
  bool splitEdge(Halfedge h, double t) {
    ab("splitE", hid(h), 0);
    return guard("splitE", [&] {
      Halfedge r = w.T->splitEdge(h, t);
      log(J()("op", "splitE")("h", hid(h))("r", hid(r))("v", vid(r.vertex())));
    });
  }
  bool remove(Vertex v) {
    long id = vid(v);
    ab("remove", id, 0);
    return guard("remove", [&] {
      Face f = w.T->removeInsertedVertex(v);
      if (f == Face())
        log(J()("op", "same"));
      else
        log(J()("op", "remove")("v", id)("h", hid(f.halfedge())));
    });
  }
};
static Vector3 rbary(Rng& R) {
  Vector3 b{.08 + real(R), .08 + real(R), .08 + real(R)};
  return b / (b.x + b.y + b.z);
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  int shard = (int)A.num("shard", 0), shards = (int)A.num("shards", 1), iters = (int)A.num("iters", 10), len = (int)A.num("len", 20);
  bool edges = A.num("edges", 1), deep = A.num("deep", 0);
  Rng R((uint64_t)A.num("seed", 1) * 104729 + (uint64_t)shard);
  // every sequence of flips on a tetrahedron, a square, and a two-triangle strip's neighbours
  {
    auto S = seedMeshes();
    int c = 0;
    for (auto& s : S) {
      if (s.second.size() > (deep ? 8 : 6)) continue;
      if (c++ % shards != shard) continue;
      uint64_t gs = 12345 + c;
      size_t nE = triMesh(s.second)->nEdges();
      int depth = nE <= 6 ? 4 : nE <= 9 ? 3 : 2;
      std::vector<size_t> seq;
      std::function<void(int)> go = [&](int d) {
        if (d == 0) {
          Rng G(gs);
          Hist h;
          h.w = make(G, triMesh(s.second), .5);
          h.init();
          h.watch();
          for (size_t k : seq)
            if (!h.flip(k, false)) break;
          return;
        }
        for (size_t k = 0; k < nE; k++) {
          if (seq.size() && seq.back() == k && d != 1) continue;
          seq.push_back(k);
          go(d - 1);
          seq.pop_back();
        }
      };
      go(depth);
    }
  }
  for (int it = 0; it < iters; it++) {
    Hist h;
    h.w = make(R, randomTriMesh(R, R.range(0, 6), 10), R.pick(std::vector<double>{.2, .5, .9}));
    if (h.w.in->nFaces() > 26) continue;
    h.init();
    h.watch();
    ManifoldSurfaceMesh& m = *h.w.T->intrinsicMesh;
    int kinds = R.range(0, 3); // 0: flips only, 1: + insertions in faces, 2,3: + splits of edges
    for (int k = 0; k < len; k++) {
      int o = R.range(0, 9);
      std::vector<Edge> es;
      for (Edge e : m.edges()) es.push_back(e);
      std::vector<Face> fs;
      for (Face f : m.faces()) fs.push_back(f);
      std::vector<Vertex> vs;
      for (Vertex v : m.vertices())
        if (v.getIndex() >= h.w.in->nVertices()) vs.push_back(v);
      bool ok = true;
      if (kinds >= 1 && o == 0 && vs.size() < 4)
        ok = h.splitFace(R.pick(fs), rbary(R));
      else if (kinds >= 1 && o == 1 && vs.size())
        ok = h.remove(R.pick(vs));
      else if (kinds >= 2 && edges && o == 2 && vs.size() < 4) {
        Edge e = R.pick(es);
        if (e.halfedge().isInterior() && e.halfedge().twin().isInterior() && e.halfedge().face() == e.halfedge().twin().face()) continue; // outside the domain of splitEdgeTriangular
        ok = h.splitEdge(R.range(0, 1) ? e.halfedge() : e.halfedge().twin(), .1 + .8 * real(R));
      } else
        ok = h.flip(R.pick(es).getIndex(), R.range(0, 4) == 0);
      if (!ok) break;
    }
  }
  vt::done();
  _exit(0);
}
