// Records networks of edge paths being straightened by flipping edges, for specs/FlipTrace.tla (C25).
#include "geometrycentral/surface/flip_geodesics.h"
#include "geometrycentral/surface/mesh_graph_algorithms.h"
#include "surfworld.h"
using namespace vt;

// a strictly convex flat polygon
static void convexWorld(Rng& R, SurfWorld& w) {
  while (true) {
    w.T.reset(), w.geo.reset(), w.in.reset(), w.pos.clear();
    int n = R.range(3, 5), m = R.range(3, 5);
    for (int j = 0; j < m; j++)
      for (int i = 0; i < n; i++) {
        double u = 2. * i / (n - 1) - 1, v = 2. * j / (m - 1) - 1;
        bool rim = i == 0 || j == 0 || i == n - 1 || j == m - 1;
        u += (rim && (i == 0 || i == n - 1) ? 0 : 1) * .3 * (real(R) - .5) / n * (rim && !(i > 0 && i < n - 1) ? 0 : 1);
        v += (rim && !(j > 0 && j < m - 1) ? 0 : 1) * .3 * (real(R) - .5) / m;
        w.pos.push_back(Vector3{2 * u * std::sqrt(1 - v * v / 2), 2 * v * std::sqrt(1 - u * u / 2), 0});
      }
    Polys P;
    auto id = [&](int i, int j) { return (size_t)(j * n + i); };
    for (int j = 0; j + 1 < m; j++)
      for (int i = 0; i + 1 < n; i++) {
        size_t a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
        if (R.range(0, 1))
          P.push_back({a, b, c}), P.push_back({a, c, d});
        else
          P.push_back({a, b, d}), P.push_back({b, c, d});
      }
    bool ok = true;
    for (auto& f : P) {
      Vector3 u = w.pos[f[1]] - w.pos[f[0]], v = w.pos[f[2]] - w.pos[f[0]];
      if (u.x * v.y - u.y * v.x < .03) ok = false;
    }
    if (!ok) continue;
    w.in.reset(new ManifoldSurfaceMesh(P));
    EdgeData<double> len(*w.in);
    for (Edge e : w.in->edges()) len[e] = norm(w.pos[e.firstVertex().getIndex()] - w.pos[e.secondVertex().getIndex()]);
    w.geo.reset(new EdgeLengthGeometry(*w.in, len));
    return;
  }
}

struct Flip {
  SurfWorld w;
  std::unique_ptr<FlipEdgeNetwork> net;
  long at = 0;
  bool traced = true, convex = false;
  std::vector<size_t> control;
  ~Flip() { w.T.release(); }
  typedef std::vector<Halfedge> HP;

  J state(bool traces) {
    w.T.release();
    w.T.reset(net->tri.get());
    J j = w.state(traces);
    w.T.release();
    ManifoldSurfaceMesh& g = net->mesh;
    size_t nE = 0, nV = 0, nH = 0;
    for (Edge e : g.edges()) nE = std::max(nE, e.getIndex() + 1);
    for (Vertex v : g.vertices()) nV = std::max(nV, v.getIndex() + 1);
    for (Halfedge v : g.halfedges()) nH = std::max(nH, v.getIndex() + 1);
    LL pa;
    L cl, mv(nV, 0), sp(nH, 0), eo(nE, 0);
    std::map<std::pair<FlipEdgePath*, SegmentID>, L> where;
    for (size_t k = 0; k < net->paths.size(); k++) {
      FlipEdgePath& p = *net->paths[k];
      HP hs = p.getHalfedgeList();
      L ids;
      for (Halfedge h : hs) ids.push_back(hid(h));
      pa.push_back(ids), cl.push_back(p.isClosed);
      // number the segments the way the list runs
      SegmentID first = INVALID_IND, any = p.pathHeInfo.begin()->first;
      for (auto& x : p.pathHeInfo)
        if (std::get<1>(x.second) == INVALID_IND) first = x.first;
      if (first == INVALID_IND) { // closed: the list starts after the entry it found last
        SegmentID last = any;
        for (auto& x : p.pathHeInfo) last = x.first;
        first = std::get<2>(p.pathHeInfo[last]);
      }
      SegmentID s = first;
      for (size_t n = 0; n < p.pathHeInfo.size() && s != INVALID_IND; n++) {
        where[{&p, s}] = L{(long)k + 1, (long)n + 1};
        s = std::get<2>(p.pathHeInfo[s]);
      }
    }
    std::vector<LL> at(nE);
    for (Edge e : g.edges()) {
      for (auto& s : net->pathsAtEdge[e]) {
        auto f = where.find({s.path, s.id});
        at[e.getIndex()].push_back(f == where.end() ? L{0, 0} : f->second);
      }
      eo[e.getIndex()] = net->tri->edgeIsOriginal[e];
    }
    for (Vertex v : g.vertices()) mv[v.getIndex()] = net->isMarkedVertex[v];
    for (Halfedge h : g.halfedges()) sp[h.getIndex()] = mu(net->tri->signpostAngle[h]);
    j("pa", pa)("cl", cl)("at", at)("mv", mv)("sp", sp)("eo", eo)("length", mu(net->length()))("through", (int)net->straightenAroundMarkedVertices);
    L inp;
    for (Edge e : g.edges()) {
      if (net->edgeInPath(e) != net->halfedgeInPath(e.halfedge()) || net->edgeInPath(e) != net->halfedgeInPath(e.halfedge().twin())) inp.push_back(-1);
      if (net->edgeInPath(e)) inp.push_back((long)e.getIndex() + 1);
    }
    double a = net->minAngle(), b = net->minAngleIsotopy();
    j("inp", inp)("minA", std::isfinite(a) ? mu(a) : 2000000000L)("minI", std::isfinite(b) ? mu(b) : 2000000000L)("orig", (int)net->intrinsicTriIsOriginal());
    // the way over the input
    std::vector<LL> pl;
    L plen, pgap;
    int perfect = -1;
    if (traces) {
      bool okay = false;
      auto X = net->getPathPolyline(okay);
      perfect = okay;
      for (size_t k = 0; k < X.size(); k++) {
        HP hs = net->paths[k]->getHalfedgeList();
        auto p = w.path(X[k], w.geo->edgeLengths, *w.in, net->tri->vertexLocations[hs.front().vertex()], net->tri->vertexLocations[hs.back().twin().vertex()]);
        pl.push_back(p.pts), plen.push_back(mu(p.len)), pgap.push_back(mu(p.endGap));
      }
    }
    j("pl", pl)("plen", plen)("pgap", pgap)("perfect", perfect);
    return j;
  }
  // signposts place a vertex on an edge they share with the input only up to rounding, the second even on a boundary edge: no ways over the input from there
  bool traces(Rng& R) {
    std::set<size_t> met;
    for (Vertex v : net->mesh.vertices()) {
      SurfacePoint p = net->tri->vertexLocations[v];
      if (p.type == SurfacePointType::Edge && (!p.edge.isBoundary() || !met.insert(p.edge.getIndex()).second)) return false;
      if (p.type == SurfacePointType::Face && std::min(std::min(p.faceCoords.x, p.faceCoords.y), p.faceCoords.z) < 1e-6) return false;
    }
    return net->mesh.nVertices() < 40 && R.range(0, 2) == 0;
  }
  void about_(const char* what) {
    std::string s = J()("of", what)("p", at).str();
    about(s.substr(1, s.size() - 2));
    cpuLimit(20);
  }
  static LL ids(const std::vector<HP>& ps) {
    LL r;
    for (auto& p : ps) {
      L x;
      for (Halfedge h : p) x.push_back(hid(h));
      r.push_back(x);
    }
    return r;
  }
  // a walk that does not turn back on itself, closed if it can
  HP walk(Rng& R, int n, bool simple, std::set<size_t>& used) {
    HP r;
    std::vector<Vertex> vs;
    for (Vertex v : w.in->vertices())
      if (!simple || !used.count(v.getIndex())) vs.push_back(v);
    if (vs.empty()) return r;
    Vertex v = R.pick(vs);
    Vertex start = v;
    used.insert(v.getIndex());
    for (int k = 0; k < n; k++) {
      std::vector<Halfedge> c;
      for (Halfedge h : v.outgoingHalfedges()) {
        if (!r.empty() && h == r.back().twin()) continue;
        Vertex t = h.tipVertex();
        if (simple && used.count(t.getIndex()) && !(t == start && r.size() >= 2)) continue;
        c.push_back(h);
      }
      if (c.empty()) break;
      Halfedge h = R.pick(c);
      r.push_back(h);
      v = h.tipVertex();
      used.insert(v.getIndex());
      if (simple && v == start) break;
    }
    while (!r.empty() && r.size() > 1 && r.front() == r.back().twin()) r.pop_back();
    return r;
  }
  static bool turnsBack(const HP& r) {
    if (r.empty()) return true;
    for (size_t k = 0; k + 1 < r.size(); k++)
      if (r[k + 1] == r[k].twin()) return true;
    return r.front().vertex() == r.back().twin().vertex() && r.front() == r.back().twin();
  }
  Vertex vert(Rng& R) { return w.in->vertex(R.below(w.in->nVertices())); }

  std::vector<HP> somePaths(Rng& R) {
    std::vector<HP> ps;
    int kind = R.range(0, 4);
    std::set<size_t> used;
    int n = R.range(0, 2) ? 1 : R.range(2, 3);
    for (int k = 0; k < n; k++) {
      HP p;
      if (kind == 0) {
        Vertex a = vert(R), b = vert(R);
        p = shortestEdgePath(*w.geo, a, b);
      } else if (kind == 1) {
        std::vector<Vertex> v;
        for (int i = R.range(2, 4); i > 0; i--) v.push_back(vert(R));
        if (R.range(0, 1)) v.push_back(v[0]);
        bool ok = true;
        for (size_t i = 0; i + 1 < v.size() && ok; i++) {
          HP q = shortestEdgePath(*w.geo, v[i], v[i + 1]);
          if (q.empty()) ok = false;
          p.insert(p.end(), q.begin(), q.end());
        }
        if (!ok) p.clear();
      } else
        p = walk(R, R.range(1, 9), kind != 2, used);
      if (!turnsBack(p)) ps.push_back(p);
    }
    return ps;
  }

  Vertex getLastVertex() { return net->paths[0]->getHalfedgeList().back().twin().vertex(); }

  // the control polygon crosses or touches itself nowhere, nor comes close to
  bool simplePolygon() {
    std::vector<Vector3> q;
    for (size_t c : control) q.push_back(w.pos[c]);
    auto side = [](Vector3 a, Vector3 b, Vector3 c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); };
    auto split = [&](Vector3 a, Vector3 b, Vector3 c, Vector3 d) {
      double x = side(a, b, c), y = side(a, b, d);
      return (x > .05 && y > .05) || (x < -.05 && y < -.05);
    };
    // nor does it turn around one of its ends, which would hold it open when the corner is cut
    auto within = [&](Vector3 a, Vector3 b, Vector3 c, Vector3 d) {
      double s = side(a, b, c) > 0 ? 1 : -1;
      return s * side(a, b, d) > -.05 && s * side(b, c, d) > -.05 && s * side(c, a, d) > -.05;
    };
    if (q.size() == 4 && (within(q[0], q[1], q[2], q[3]) || within(q[1], q[2], q[3], q[0]))) return false;
    for (size_t i = 0; i + 1 < q.size(); i++)
      for (size_t j = i + 1; j + 1 < q.size(); j++)
        if (j == i + 1 ? std::fabs(side(q[i], q[j], q[j + 1])) < .05 : !split(q[i], q[i + 1], q[j], q[j + 1]) && !split(q[j], q[j + 1], q[i], q[i + 1])) return false;
    return true;
  }

  bool begin(Rng& R) {
    int kind = R.range(0, 9);
    convex = kind < 3;
    if (convex)
      convexWorld(R, w);
    else
      w.make(R, kind < 5, false, 8, 12, 30);
    w.T.reset();
    L il;
    for (Edge e : w.in->edges()) il.push_back(mu(w.geo->edgeLengths[e]));
    J j = J()("op", "init");
    w.putInput(j);
    j("il", il)("convex", (int)convex);
    int how = convex && R.range(0, 1) ? 3 : R.range(0, 5);
    about("\"of\":\"construct\"");
    cpuLimit(20);
    ManifoldSurfaceMesh& g = *w.in;
    try {
      VertexData<bool> ex(g, false);
      bool anyMark = R.range(0, 1);
      if (anyMark)
        for (Vertex v : g.vertices()) ex[v] = R.range(0, 3) == 0;
      if (how <= 1) {
        auto ps = somePaths(R);
        j("how", "paths")("want", ids(ps));
        net.reset(new FlipEdgeNetwork(g, *w.geo, ps, ex));
      } else if (how == 2) {
        Vertex a = vert(R), b = vert(R);
        net = FlipEdgeNetwork::constructFromDijkstraPath(g, *w.geo, a, b);
        if (!net) return false;
        std::vector<HP> ps{shortestEdgePath(*w.geo, a, b)};
        j("how", "dijkstra")("want", ids(ps)), ex.fill(false);
      } else if (how == 3) {
        std::vector<Vertex> v;
        std::vector<size_t> x;
        bool curve = convex && R.range(0, 3);
        for (int i = R.range(curve ? 3 : 2, 4); i > 0; i--) v.push_back(vert(R));
        bool closed = !curve && R.range(0, 1), mark = curve || R.range(0, 1);
        HP p;
        bool ok = true;
        for (size_t i = 0; i < v.size() - !closed && ok; i++) {
          HP q = shortestEdgePath(*w.geo, v[i], v[(i + 1) % v.size()]);
          if (q.empty()) ok = false;
          p.insert(p.end(), q.begin(), q.end());
        }
        if (!ok || turnsBack(p)) return false;
        ex.fill(false);
        if (mark)
          for (Vertex y : v) ex[y] = true;
        net = FlipEdgeNetwork::constructFromPiecewiseDijkstraPath(g, *w.geo, v, closed, mark);
        if (!net) return false;
        j("how", "piecewise")("want", ids({p}));
        std::set<size_t> once;
        for (Halfedge h : p) once.insert(h.vertex().getIndex());
        once.insert(p.back().tipVertex().getIndex());
        if (convex && mark && !closed && once.size() == p.size() + 1)
          for (Vertex y : v) control.push_back(y.getIndex());
        if (!simplePolygon()) control.clear();
      } else {
        EdgeData<bool> inP(g, false);
        if (how == 4) {
          std::set<size_t> used;
          for (int k = R.range(1, 3); k > 0; k--)
            for (Halfedge h : walk(R, R.range(1, 9), true, used)) inP[h.edge()] = true;
        } else
          for (Edge e : g.edges()) inP[e] = R.range(0, 3) == 0;
        L set;
        for (Edge e : g.edges())
          if (inP[e]) set.push_back((long)e.getIndex() + 1);
        if (set.empty()) return false;
        net = FlipEdgeNetwork::constructFromEdgeSet(g, *w.geo, inP, ex);
        j("how", "edges")("want", LL{set});
      }
      L xs;
      for (Vertex v : g.vertices())
        if (ex[v]) xs.push_back(vid(v));
      j("ex", xs);
      if (R.range(0, 2) == 0) net->straightenAroundMarkedVertices = false;
      net->supportRewinding = R.range(0, 1);
      net->validate();
      J s = state(true);
      at = emit(j("s", s));
      return true;
    } catch (std::exception& x) {
      emit(J()("op", "throw")("of", "construct")("why", std::string(x.what()))("p", 0));
      return false;
    }
  }

  bool step(Rng& R, bool& pure) {
    std::string what = "";
    try {
      int o = R.range(0, 19);
      bool stacked = false;
      for (Edge e : net->mesh.edges()) stacked = stacked || net->pathsAtEdge[e].size() > 1;
      if (!control.empty() && pure && o < 14) {
        what = "bezier";
        int rounds = R.range(0, 3);
        about_("bezier");
        // straighten first: where the polygon is held open by one of its own ends it can not be subdivided
        net->bezierSubdivide(0);
        std::set<size_t> met;
        for (Halfedge h : net->paths[0]->getHalfedgeList()) met.insert(h.vertex().getIndex());
        met.insert(getLastVertex().getIndex());
        if (met.size() != net->paths[0]->size() + 1) {
          control.clear(), rounds = 0;
        }
        net->bezierSubdivide(rounds);
        net->validate();
        LL cp, mp;
        for (size_t c : control) cp.push_back({mu(w.pos[c].x), mu(w.pos[c].y)});
        HP hs = net->paths[0]->getHalfedgeList();
        auto put = [&](Vertex v) {
          Vector3 p = w.flatPos(net->tri->vertexLocations[v]);
          if (net->isMarkedVertex[v]) mp.push_back({mu(p.x), mu(p.y)});
        };
        put(hs[0].vertex());
        for (Halfedge h : hs) put(h.twin().vertex());
        at = emit(J()("op", "bezier")("p", at)("rounds", rounds)("control", cp)("marked", mp)("s", state(traces(R))));
        pure = false;
        control.clear();
        net->addAllWedgesToAngleQueue(); // straightening around marked vertices may be allowed again
      } else if (o < 10) {
        what = "shorten";
        about_("shorten");
        long mx = R.range(0, 2) ? -1 : R.range(0, 3);
        double rel = R.range(0, 4) ? 0. : R.pick(std::vector<double>{.99, .95, .9, .7});
        long long n0 = net->nShortenIters, f0 = net->nFlips;
        if (mx < 0 && rel == 0)
          net->iterativeShorten();
        else
          net->iterativeShorten(mx < 0 ? INVALID_IND : (size_t)mx, rel);
        long n = (long)(net->nShortenIters - n0), f = (long)(net->nFlips - f0);
        net->validate();
        bool more = false;
        J now0 = state(traces(R));
        if (rel == 0 && mx < 0 && R.range(0, 3) == 0) {
          // trying again with everything queued afresh changes nothing
          auto now = [&]() {
            std::vector<HP> r;
            for (auto& q : net->paths) r.push_back(q->getHalfedgeList());
            return r;
          };
          std::vector<HP> was = now();
          net->addAllWedgesToAngleQueue();
          net->iterativeShorten();
          more = now() != was;
        }
        at = emit(J()("op", "shorten")("p", at)("max", mx)("rel", std::lround(rel * 1000))("n", n)("flips", f)("again", (int)more)("s", now0));
        if (more) return false;
      } else if (o < 12) {
        what = "delaunay";
        about_("delaunay");
        net->makeDelaunay();
        net->validate();
        pure = false;
        at = emit(J()("op", "delaunay")("p", at)("s", state(traces(R))));
      } else if (o < 14) {
        if (stacked) return true;
        what = "refine";
        about_("refine");
        double area = R.range(0, 1) ? std::numeric_limits<double>::infinity() : .5;
        long mx = R.range(0, 15);
        net->delaunayRefine(area, (size_t)mx, 25.);
        net->validate();
        pure = false;
        control.clear();
        at = emit(J()("op", "refine")("p", at)("max", mx)("s", state(traces(R))));
      } else if (o < 17) {
        if (!pure || !net->supportRewinding) return true;
        what = "rewind";
        about_("rewind");
        if (R.range(0, 1)) {
          net->rewind();
          at = emit(J()("op", "rewind")("p", at)("want", LL{})("s", state(true)));
        }
        auto ps = somePaths(R);
        control.clear();
        what = "reinitialize";
        about_("reinitialize");
        net->reinitializePath(ps);
        net->validate();
        at = emit(J()("op", "rewind")("p", at)("want", ids(ps))("s", state(true)));
      } else if (o == 17) {
        net->straightenAroundMarkedVertices = !net->straightenAroundMarkedVertices;
        what = "option";
        net->addAllWedgesToAngleQueue();
        at = emit(J()("op", "option")("p", at)("s", state(false)));
      } else if (o == 18) {
        // split a path edge
        std::vector<FlipPathSegment> segs;
        for (auto& p : net->paths)
          for (auto& x : p->pathHeInfo)
            if (Edge e = std::get<0>(x.second).edge(); net->pathsAtEdge[e].size() == 1 && (e.isBoundary() || e.halfedge().face() != e.halfedge().twin().face())) segs.push_back({p.get(), x.first});
        if (segs.empty()) return true;
        std::sort(segs.begin(), segs.end(), [&](const FlipPathSegment& a, const FlipPathSegment& b) { return a.id < b.id; });
        what = "split";
        about_("split");
        FlipPathSegment s = R.pick(segs);
        Halfedge h = s.halfedge();
        double t = .2 + .6 * real(R);
        J j = J()("op", "split")("p", at)("h", hid(h))("t", mu(t));
        s.splitEdge(t);
        net->validate();
        pure = false;
        at = emit(j("h1", hid(s.halfedge()))("h2", hid(s.next().halfedge()))("s", state(traces(R))));
      } else {
        // one more path along edges no other path uses or touches
        std::set<size_t> used;
        for (auto& p : net->paths)
          for (Halfedge h : p->getHalfedgeList()) used.insert(h.vertex().getIndex()), used.insert(h.twin().vertex().getIndex());
        ManifoldSurfaceMesh& g = net->mesh;
        std::vector<Halfedge> c;
        for (Halfedge h : g.halfedges())
          if (!used.count(h.vertex().getIndex()) && !used.count(h.twin().vertex().getIndex())) c.push_back(h);
        if (c.empty()) return true;
        what = "add";
        about_("add");
        HP p{R.pick(c)};
        net->addPath(p);
        net->validate();
        pure = false;
        at = emit(J()("op", "add")("p", at)("want", ids({p}))("s", state(traces(R))));
      }
      return true;
    } catch (std::exception& x) {
      emit(J()("op", "throw")("of", what)("why", std::string(x.what()))("p", at));
      return false;
    }
  }
};

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  int iters = (int)A.num("iters", 10), len = (int)A.num("len", 5);
  Rng R((uint64_t)A.num("seed", 1) * 86028121 + (uint64_t)A.num("shard", 0));
  for (int it = 0; it < iters; it++) {
    Flip h;
    if (!h.begin(R)) continue;
    bool pure = true;
    for (int k = 0; k < len; k++) {
      if (!h.step(R, pure)) break;
      if (h.net->mesh.nVertices() > 60) break;
    }
  }
  vt::done();
  _exit(0);
}
