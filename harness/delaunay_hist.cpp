// Records flipping to Delaunay and Delaunay refinement, by both intrinsic triangulations and the stand-alone routine, for specs/DelaunayTrace.tla (C17).
#include "geometrycentral/surface/simple_idt.h"
#include "surfworld.h"
using namespace vt;

struct Del {
  SurfWorld w;
  long at = 0;
  long ins = 0;
  long init() {
    w.T->faceInsertionCallbackList.push_back([this](Face, Vertex) { ins++; });
    w.T->edgeSplitCallbackList.push_back([this](Edge, Halfedge, Halfedge) { ins++; });
    L il;
    for (Edge e : w.in->edges()) il.push_back(mu(w.geo->edgeLengths[e]));
    J j = J()("op", "init");
    w.putInput(j);
    return at = emit(j("il", il)("s", w.state(false)));
  }
  template <class M>
  static LL ends(M& m, EdgeData<double>& len) {
    LL r;
    for (Edge e : m.edges()) {
      long a = vid(e.firstVertex()), b = vid(e.secondVertex());
      r.push_back({std::min(a, b), std::max(a, b), mu(len[e])});
    }
    return r;
  }
  // the stand-alone routine on a copy
  void standAlone(J& j, Rng& R) {
    ManifoldSurfaceMesh& g = w.m();
    g.compress();
    std::unique_ptr<ManifoldSurfaceMesh> c = g.copy();
    EdgeData<double> len = w.T->edgeLengths.reinterpretTo(*c);
    size_t n = flipToDelaunay(*c, len);
    j("alone", ends(*c, len))("nf", n);
    LL m1;
    // the same over a general mesh with faces turned over, when that describes the same surface
    LL gen;
    bool doGen = simpleMesh(g);
    if (doGen) {
      Polys P;
      std::map<std::pair<size_t, size_t>, double> L0;
      for (Face f : g.faces()) {
        std::vector<size_t> p;
        for (Vertex v : f.adjacentVertices()) p.push_back(v.getIndex());
        if (R.range(0, 2) == 0) std::reverse(p.begin(), p.end());
        P.push_back(p);
      }
      for (Edge e : g.edges()) L0[std::minmax(e.firstVertex().getIndex(), e.secondVertex().getIndex())] = w.T->edgeLengths[e];
      SurfaceMesh s(P);
      EdgeData<double> ls(s);
      for (Edge e : s.edges()) ls[e] = L0[std::minmax(e.firstVertex().getIndex(), e.secondVertex().getIndex())];
      flipToDelaunay(s, ls);
      gen = ends(s, ls);
    }
    j("doGen", (int)doGen)("gen", gen);
    // with hyperbolic flips
    std::unique_ptr<ManifoldSurfaceMesh> h = g.copy();
    EdgeData<double> hl = w.T->edgeLengths.reinterpretTo(*h);
    flipToDelaunay(*h, hl, FlipType::Hyperbolic);
    LL hc; // cosines of the angles opposite each interior edge
    for (Edge e : h->edges()) {
      if (e.isBoundary()) continue;
      L c2;
      for (Halfedge x : {e.halfedge(), e.halfedge().twin()}) {
        double a = hl[x.edge()], b = hl[x.next().edge()], d = hl[x.next().next().edge()];
        c2.push_back(mu((b * b + d * d - a * a) / (2 * b * d)));
      }
      hc.push_back(c2);
    }
    j("hyp", hc);
  }
  void about_(const char* what, int kind) {
    std::string s = J()("of", what)("p", at)("kind", kind).str();
    about(s.substr(1, s.size() - 2));
    cpuLimit(20);
  }
  bool flip(Rng& R) {
    about_("delaunay", w.integer);
    try {
      J s0 = w.state(false);
      J a = J();
      standAlone(a, R);
      w.T->flipToDelaunay();
      J j = J()("op", "delaunay")("p", at)("s0", s0)("s", w.state(false))("isD", (int)w.T->isDelaunay())("min", mu(w.T->minAngleDegrees() * PI / 180))(
          "minV", mu(w.T->minAngleDegreesAtValidFaces(0) * PI / 180));
      quantities(j);
      at = emit(j("a", a));
      return true;
    } catch (std::exception& x) {
      emit(J()("op", "throw")("of", "delaunay")("why", std::string(x.what()))("p", at));
      return false;
    }
  }
  // a quantity the triangulation was asked to keep: must be fresh afterwards
  void quantities(J& j) {
    L q;
    size_t n = 0;
    for (Halfedge h : w.m().halfedges()) n = std::max(n, h.getIndex() + 1);
    q.assign(n, 0);
    for (Halfedge h : w.m().halfedges())
      if (h.isInterior()) q[h.getIndex()] = mu(w.T->cornerAngles[h.corner()]);
    j("ca", q);
  }
  bool refine(Rng& R) {
    about_("refine", w.integer);
    double ang = R.pick(std::vector<double>{15, 20, 25, 25, 28});
    double rad = R.range(0, 2) ? std::numeric_limits<double>::infinity() : .35 + .5 * real(R);
    static const long mx[] = {0, 1, 2, 5, 12, 40, -1, -1};
    long m = mx[R.below(8)];
    try {
      J s0 = w.state(false);
      ins = 0;
      if (m < 0)
        w.T->delaunayRefine(ang, rad);
      else
        w.T->delaunayRefine(ang, rad, (size_t)m);
      w.m().compress();
      ManifoldSurfaceMesh& g = w.m();
      L parent, radii;
      for (Face f : g.faces()) {
        Face p = w.T->getParentFace(f);
        parent.push_back(p == Face() ? 0 : (long)p.getIndex() + 1);
        double a = w.T->edgeLengths[f.halfedge().edge()], b = w.T->edgeLengths[f.halfedge().next().edge()], c = w.T->edgeLengths[f.halfedge().next().next().edge()];
        radii.push_back(mu(a * b * c / (4 * heronArea(a, b, c))));
      }
      J j = J()("op", "refine")("p", at)("ang", mu(ang * PI / 180))("rad", std::isfinite(rad) ? mu(rad) : 0)("max", m)("ins", ins)("s0", s0)("s", w.state(g.nVertices() < 25 && R.range(0, 3) == 0))("isD", (int)w.T->isDelaunay())(
          "min", mu(w.T->minAngleDegrees() * PI / 180))("minV", mu(w.T->minAngleDegreesAtValidFaces(0) * PI / 180))("parent", parent)("radii", radii);
      quantities(j);
      at = emit(j);
      return true;
    } catch (std::exception& x) {
      emit(J()("op", "throw")("of", "refine")("why", std::string(x.what()))("p", at));
      return false;
    }
  }
};

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  int iters = (int)A.num("iters", 10), len = (int)A.num("len", 3);
  Rng R((uint64_t)A.num("seed", 1) * 15485863 + (uint64_t)A.num("shard", 0));
  for (int it = 0; it < iters; it++) {
    Del h;
    bool integer = R.range(0, 1);
    h.w.make(R, R.range(0, 2) == 0, integer);
    ManifoldSurfaceMesh& m = h.w.m();
    bool marks = R.range(0, 1);
    if (marks) {
      EdgeData<bool> mk(m, false);
      for (Edge e : m.edges()) mk[e] = R.range(0, 4) == 0;
      h.w.T->setMarkedEdges(mk);
    }
    h.w.T->requireCornerAngles();
    h.init();
    for (int k = 0; k < len; k++) {
      // wander off first
      about("\"of\":\"edit\"");
      cpuLimit(10);
      for (int n = R.range(0, 25); n > 0; n--) {
        std::vector<Edge> es;
        for (Edge e : m.edges()) es.push_back(e);
        h.w.T->flipEdgeIfPossible(R.pick(es));
      }
      bool ok;
      // signposts place a vertex on an interior edge they share with the input only up to rounding: no marked edges there
      if ((marks && !integer) || R.range(0, 2))
        ok = h.flip(R);
      else
        ok = h.refine(R);
      if (!ok) break;
      if (m.nVertices() > 60) break;
    }
  }
  vt::done();
  _exit(0);
}
