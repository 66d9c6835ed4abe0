// Records histories of edits through MutationManager (constraints, positions, registered handlers), for
// specs/ManagerTrace.tla. Positions and split parameters are logged in units of 1/4096.
#include "geometrycentral/surface/mutation_manager.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "meshops.h"
#include "seeds.h"
using namespace vt;

static long sc(double x) { return x > 1e5 || x < -1e5 || x != x ? 999999999 : std::lround(x * 4096); }
static std::vector<long> sc(Vector3 p) { return {sc(p.x), sc(p.y), sc(p.z)}; }

struct Call {
  long h;
  bool post;
  std::vector<long> a, t;
  long d;
  std::string fp;
};

struct World {
  std::unique_ptr<ManifoldSurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> geom;
  std::unique_ptr<MutationManager> mm;
  bool geo;
  std::vector<Call> calls;
  long token = 0, nextHandler = 1;
  std::map<long, MutationPolicyHandle> removable;

  std::string finger() {
    std::string s = meshState(*mesh).str();
    if (geo)
      for (Vertex v : mesh->vertices())
        for (long c : sc(geom->vertexPositions[v])) s += "," + std::to_string(c);
    return s;
  }
  long call(long h, bool post, std::vector<long> a, std::vector<long> t, long d) {
    calls.push_back({h, post, a, t, d, finger()});
    return d;
  }
};

// a policy with every callback
struct AllPolicy : public VertexRepositionPolicy, public EdgeFlipPolicy, public EdgeSplitPolicy, public EdgeCollapsePolicy, public FaceSplitPolicy {
  World& W;
  long id;
  AllPolicy(World& W_, long id_) : W(W_), id(id_) {}
  void beforeVertexReposition(const Vertex& v, const Vector3& o) override { W.call(id, false, {eid(v)}, sc(o), 0); }
  void beforeEdgeFlip(const Edge& e) override { W.call(id, false, {eid(e)}, {}, 0); }
  void afterEdgeFlip(const Edge& e) override { W.call(id, true, {eid(e)}, {}, 0); }
  void beforeEdgeSplit(const Edge& e, const double& t) override { W.call(id, false, {eid(e)}, {sc(t)}, 0); }
  void afterEdgeSplit(const Halfedge& a, const Halfedge& b, const double& t) override { W.call(id, true, {eid(a), eid(b)}, {sc(t)}, 0); }
  void beforeEdgeCollapse(const Edge& e, const double& t) override { W.call(id, false, {eid(e)}, {sc(t)}, 0); }
  void afterEdgeCollapse(const Vertex& v, const double& t) override { W.call(id, true, {eid(v)}, {sc(t)}, 0); }
  void beforeFaceSplit(const Face& f, const std::vector<double>& b) override { W.call(id, false, {eid(f)}, w(b), 0); }
  void afterFaceSplit(const Vertex& v, const std::vector<double>& b) override { W.call(id, true, {eid(v)}, w(b), 0); }
  static std::vector<long> w(const std::vector<double>& b) {
    std::vector<long> r;
    for (double x : b) r.push_back(sc(x));
    return r;
  }
};
struct FlipPolicy : public EdgeFlipPolicy {
  World& W;
  long id;
  FlipPolicy(World& W_, long id_) : W(W_), id(id_) {}
  void beforeEdgeFlip(const Edge& e) override { W.call(id, false, {eid(e)}, {}, 0); }
  void afterEdgeFlip(const Edge& e) override { W.call(id, true, {eid(e)}, {}, 0); }
};
struct SplitPolicy : public EdgeSplitPolicy {
  World& W;
  long id;
  SplitPolicy(World& W_, long id_) : W(W_), id(id_) {}
  void beforeEdgeSplit(const Edge& e, const double& t) override { W.call(id, false, {eid(e)}, {sc(t)}, 0); }
  void afterEdgeSplit(const Halfedge& a, const Halfedge& b, const double& t) override { W.call(id, true, {eid(a), eid(b)}, {sc(t)}, 0); }
};
struct CollPolicy : public EdgeCollapsePolicy {
  World& W;
  long id;
  CollPolicy(World& W_, long id_) : W(W_), id(id_) {}
  void beforeEdgeCollapse(const Edge& e, const double& t) override { W.call(id, false, {eid(e)}, {sc(t)}, 0); }
  void afterEdgeCollapse(const Vertex& v, const double& t) override { W.call(id, true, {eid(v)}, {sc(t)}, 0); }
};
struct FSplitPolicy : public FaceSplitPolicy {
  World& W;
  long id;
  FSplitPolicy(World& W_, long id_) : W(W_), id(id_) {}
  void beforeFaceSplit(const Face& f, const std::vector<double>& b) override { W.call(id, false, {eid(f)}, AllPolicy::w(b), 0); }
  void afterFaceSplit(const Vertex& v, const std::vector<double>& b) override { W.call(id, true, {eid(v)}, AllPolicy::w(b), 0); }
};
struct ReposPolicy : public VertexRepositionPolicy {
  World& W;
  long id;
  ReposPolicy(World& W_, long id_) : W(W_), id(id_) {}
  void beforeVertexReposition(const Vertex& v, const Vector3& o) override { W.call(id, false, {eid(v)}, sc(o), 0); }
};

// kind: flip split coll fsplit repos all; shape: data void pre post policy
static long registerHandler(World& W, const std::string& kind, const std::string& shape) {
  long h = W.nextHandler++;
  MutationManager& M = *W.mm;
  World* w = &W;
  if (shape == "policy") {
    MutationPolicy* p = nullptr;
    if (kind == "all") p = new AllPolicy(W, h);
    if (kind == "flip") p = new FlipPolicy(W, h);
    if (kind == "split") p = new SplitPolicy(W, h);
    if (kind == "coll") p = new CollPolicy(W, h);
    if (kind == "fsplit") p = new FSplitPolicy(W, h);
    if (kind == "repos") p = new ReposPolicy(W, h);
    W.removable.emplace(h, M.registerPolicy(p));
    return h;
  }
  if (kind == "flip") {
    auto pre = [w, h](Edge e) { w->call(h, false, {eid(e)}, {}, 0); };
    auto post = [w, h](Edge e) { w->call(h, true, {eid(e)}, {}, 0); };
    if (shape == "data")
      M.registerEdgeFlipHandlers([w, h](Edge e) -> long { return w->call(h, false, {eid(e)}, {}, ++w->token); },
                                 [w, h](Edge e, long d) { w->call(h, true, {eid(e)}, {}, d); });
    if (shape == "void") M.registerEdgeFlipHandlers(pre, post);
    if (shape == "pre") M.registerEdgeFlipPreHandler(pre);
    if (shape == "post") M.registerEdgeFlipPostHandler(post);
  }
  if (kind == "split") {
    auto pre = [w, h](Edge e, double t) { w->call(h, false, {eid(e)}, {sc(t)}, 0); };
    auto post = [w, h](Halfedge a, Halfedge b, double t) { w->call(h, true, {eid(a), eid(b)}, {sc(t)}, 0); };
    if (shape == "data")
      M.registerEdgeSplitHandlers([w, h](Edge e, double t) -> long { return w->call(h, false, {eid(e)}, {sc(t)}, ++w->token); },
                                  [w, h](Halfedge a, Halfedge b, double t, long d) { w->call(h, true, {eid(a), eid(b)}, {sc(t)}, d); });
    if (shape == "void") M.registerEdgeSplitHandlers(pre, post);
    if (shape == "pre") M.registerEdgeSplitPreHandler(pre);
    if (shape == "post") M.registerEdgeSplitPostHandler(post);
  }
  if (kind == "coll") {
    auto pre = [w, h](Edge e, double t) { w->call(h, false, {eid(e)}, {sc(t)}, 0); };
    auto post = [w, h](Vertex v, double t) { w->call(h, true, {eid(v)}, {sc(t)}, 0); };
    if (shape == "data")
      M.registerEdgeCollapseHandlers([w, h](Edge e, double t) -> long { return w->call(h, false, {eid(e)}, {sc(t)}, ++w->token); },
                                     [w, h](Vertex v, double t, long d) { w->call(h, true, {eid(v)}, {sc(t)}, d); });
    if (shape == "void") M.registerEdgeCollapseHandlers(pre, post);
    if (shape == "pre") M.registerEdgeCollapsePreHandler(pre);
    if (shape == "post") M.registerEdgeCollapsePostHandler(post);
  }
  if (kind == "fsplit") {
    auto pre = [w, h](Face f, std::vector<double> b) { w->call(h, false, {eid(f)}, AllPolicy::w(b), 0); };
    auto post = [w, h](Vertex v) { w->call(h, true, {eid(v)}, {}, 0); };
    if (shape == "data")
      M.registerFaceSplitHandlers(
          [w, h](Face f, std::vector<double> b) -> long { return w->call(h, false, {eid(f)}, AllPolicy::w(b), ++w->token); },
          [w, h](Vertex v, long d) { w->call(h, true, {eid(v)}, {}, d); });
    if (shape == "void") M.registerFaceSplitHandlers(pre, post);
    if (shape == "pre") M.registerFaceSplitPreHandler(pre);
    if (shape == "post") M.registerFaceSplitPostHandler(post);
  }
  return h;
}

static J state(World& W) {
  ManifoldSurfaceMesh& m = *W.mesh;
  MutationManager& M = *W.mm;
  J s = meshState(m);
  std::vector<std::vector<long>> pos;
  if (W.geo)
    for (Vertex v : m.vertices()) {
      if ((long)pos.size() < eid(v)) pos.resize(eid(v), {0, 0, 0});
      pos[eid(v) - 1] = sc(W.geom->vertexPositions[v]);
    }
  s("pos", pos)("geo", W.geo);
  std::vector<long> rv, se, ce, fe, sf, mr, ms, mc, mf, mt;
  for (Vertex v : m.vertices()) {
    if (M.repositionableVertices.size() > 0) put(rv, eid(v), M.repositionableVertices[v]);
    put(mr, eid(v), M.mayRepositionVertex(v));
  }
  for (Edge v : m.edges()) {
    if (M.splittableEdges.size() > 0) put(se, eid(v), M.splittableEdges[v]);
    if (M.collapsibleEdges.size() > 0) put(ce, eid(v), M.collapsibleEdges[v]);
    if (M.flippableEdges.size() > 0) put(fe, eid(v), M.flippableEdges[v]);
    put(ms, eid(v), M.maySplitEdge(v));
    put(mc, eid(v), M.mayCollapseEdge(v));
    put(mf, eid(v), M.mayFlipEdge(v));
  }
  for (Face v : m.faces()) {
    if (M.splittableFaces.size() > 0) put(sf, eid(v), M.splittableFaces[v]);
    put(mt, eid(v), M.maySplitFace(v));
  }
  s("rv", rv)("se", se)("ce", ce)("fe", fe)("sf", sf)("mr", mr)("ms", ms)("mc", mc)("mf", mf)("mt", mt);
  return s;
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long shard = A.num("shard", 0), budget = A.num("events", 1000), seed = A.num("seed", 1), len = A.num("len", 30);
  std::vector<std::pair<std::string, Polys>> seeds;
  for (auto& S : seedMeshes()) {
    bool tri = true;
    for (auto& f : S.second) tri = tri && f.size() == 3;
    if (tri && S.first != "pillow") seeds.push_back(S);
  }
  const std::vector<std::string> kinds = {"flip", "split", "coll", "fsplit"}, shapes = {"data", "void", "pre", "post", "policy"};
  for (long it = 0; nLines() < budget; it++) {
    Rng rng((uint64_t)seed * 1000003 + shard * 7919 + it);
    auto& S = seeds[rng.below(seeds.size())];
    World W;
    W.mesh.reset(new ManifoldSurfaceMesh(S.second));
    W.geo = !rng.chance(12);
    if (W.geo) {
      W.geom.reset(new VertexPositionGeometry(*W.mesh));
      for (Vertex v : W.mesh->vertices()) W.geom->vertexPositions[v] = Vector3{(double)rng.range(-8, 8), (double)rng.range(-8, 8), (double)rng.range(-8, 8)};
      W.mm.reset(new MutationManager(*W.mesh, *W.geom));
    } else
      W.mm.reset(new MutationManager(*W.mesh));
    ManifoldSurfaceMesh& m = *W.mesh;
    MutationManager& M = *W.mm;
    about("");
    J j0;
    j0("op", "init")("src", S.first)("s", state(W))("calls", std::vector<long>());
    long p = emit(j0);
    auto log = [&](J& j, const std::string& before) {
      std::string after = W.finger();
      std::vector<J> cs;
      for (Call& c : W.calls) {
        long at = 2;
        if (c.fp == (c.post ? after : before))
          at = c.post ? 1 : 0;
        else if (c.fp == (c.post ? before : after))
          at = c.post ? 0 : 1;
        J k;
        k("h", c.h)("post", c.post)("a", c.a)("t", c.t)("d", c.d)("at", at);
        cs.push_back(k);
      }
      W.calls.clear();
      j("p", p)("calls", cs)("s", state(W));
      p = emit(j);
    };
    bool hasSet = rng.chance(70);
    int dens = rng.pick(std::vector<int>{50, 85, 95});
    for (long k = 0; k < len; k++) {
      if (m.nFaces() == 0 || m.nHalfedges() > 160) break;
      if (W.geo) {
        bool far = false;
        for (Vertex v : m.vertices()) far = far || W.geom->vertexPositions[v].norm() > 200;
        if (far) break;
      }
      std::string before = W.finger();
      J j;
      int x = (int)rng.below(100);
      if (x < 8) { // constraints
        static const std::vector<std::string> names = {"rv", "se", "ce", "fe", "sf"};
        std::string n = names[rng.below(5)];
        bool clear = !hasSet || rng.chance(25), def = rng.chance(50);
        std::vector<long> vals;
        if (clear) {
          if (n == "rv") M.clearRepositionableVertices();
          if (n == "se") M.clearSplittableEdges();
          if (n == "ce") M.clearCollapsibleEdges();
          if (n == "fe") M.clearFlippableEdges();
          if (n == "sf") M.clearSplittableFaces();
        } else {
          auto fill = [&](auto& data, auto range) {
            for (auto e : range) {
              bool b = rng.chance(dens);
              data[e] = b;
              put(vals, eid(e), b);
            }
          };
          bool dd = rng.chance(30); // the default argument
          if (dd) def = true;
          if (n == "rv") {
            VertexData<bool> d(m, rng.chance(50));
            fill(d, m.vertices());
            dd ? M.setRepositionableVertices(d) : M.setRepositionableVertices(d, def);
          } else if (n == "sf") {
            FaceData<bool> d(m, rng.chance(50));
            fill(d, m.faces());
            dd ? M.setSplittableFaces(d) : M.setSplittableFaces(d, def);
          } else {
            EdgeData<bool> d(m, rng.chance(50));
            fill(d, m.edges());
            if (n == "se") dd ? M.setSplittableEdges(d) : M.setSplittableEdges(d, def);
            if (n == "ce") dd ? M.setCollapsibleEdges(d) : M.setCollapsibleEdges(d, def);
            if (n == "fe") dd ? M.setFlippableEdges(d) : M.setFlippableEdges(d, def);
          }
        }
        j("op", clear ? "clrc" : "setc")("n", n)("vals", vals)("def", def);
        log(j, before);
        continue;
      }
      if (x < 20) { // handlers
        if (rng.chance(30) && !W.removable.empty()) {
          auto itr = W.removable.begin();
          std::advance(itr, rng.below(W.removable.size()));
          long h = itr->first;
          if (rng.chance(50))
            itr->second.remove();
          else
            M.removePolicy(itr->second);
          W.removable.erase(itr);
          j("op", "unreg")("h", h);
          log(j, before);
          continue;
        }
        std::string kind = kinds[rng.below(4)], shape = shapes[rng.below(5)];
        if (shape == "policy" && rng.chance(50)) kind = rng.chance(60) ? "all" : "repos";
        long h = registerHandler(W, kind, shape);
        j("op", "reg")("h", h)("kind", kind)("shape", shape);
        log(j, before);
        continue;
      }
      cpuLimit(5);
      if (x < 30 && W.geo) {
        std::vector<Vertex> c;
        for (Vertex v : m.vertices()) c.push_back(v);
        Vertex v = rng.pick(c);
        Vector3 o{(double)rng.range(-3, 3), (double)rng.range(-3, 3), (double)rng.range(1, 3)};
        J d;
        d("of", "repos")("a", eid(v))("p", p);
        std::string dd = d.str();
        about(dd.substr(1, dd.size() - 2));
        bool r = M.repositionVertex(v, o);
        j("op", "repos")("a", std::vector<long>{eid(v)})("o", sc(o))("r", r ? 1 : 0);
        log(j, before);
        continue;
      }
      if (x < 34) {
        m.compress();
        j("op", "compress");
        log(j, before);
        continue;
      }
      if (x < 44) {
        std::vector<Face> c;
        for (Face f : m.faces()) c.push_back(f);
        Face f = rng.pick(c);
        long i = eid(f);
        std::vector<double> b;
        std::vector<long> bl;
        int left = 4;
        for (int q = 0; q < 3; q++) {
          int w = q == 2 ? left : rng.range(0, left);
          left -= w;
          b.push_back(w / 4.);
          bl.push_back(w);
        }
        Vector3 np{(double)rng.range(-8, 8), (double)rng.range(-8, 8), (double)rng.range(-8, 8)};
        bool withPos = rng.chance(40);
        J d;
        d("of", "fsplit")("a", i)("p", p);
        std::string dd = d.str();
        about(dd.substr(1, dd.size() - 2));
        Vertex r = withPos ? M.splitFace(f, b, np) : M.splitFace(f, b);
        j("op", "fsplit")("a", std::vector<long>{i})("w", bl)("mode", withPos ? 2 : 0)("np", sc(np))("x", "")("r", eid(r));
        log(j, before);
        continue;
      }
      // edge edits
      std::string op = x < 64 ? "flip" : x < 82 ? "split" : "coll";
      if (op == "split" && m.nHalfedges() > 120) op = "coll";
      std::vector<Edge> c;
      for (Edge e : m.edges()) {
        if (op == "coll" && !collapseDomain(e)) continue;
        if (op == "split" && !e.isBoundary() && e.halfedge().face() == e.halfedge().twin().face()) continue;
        c.push_back(e);
      }
      if (c.empty()) continue;
      Edge e = rng.pick(c);
      long i = eid(e);
      long t4 = rng.range(0, 4), mode = W.geo ? rng.range(0, 2) : 2 * rng.range(0, 1);
      Vector3 np{(double)rng.range(-8, 8), (double)rng.range(-8, 8), (double)rng.range(-8, 8)};
      if (mode == 1) { // by position only: a point whose nearest location is known
        t4 = rng.range(-1, 5);
        Vector3 a = W.geom->vertexPositions[e.halfedge().vertex()], b = W.geom->vertexPositions[e.halfedge().twin().vertex()];
        if (norm(b - a) < 0.2) {
          if (norm(b - a) > 0) continue;
          t4 = 0;
        } else {
          Vector3 ax{(double)rng.range(-2, 2), (double)rng.range(-2, 2), (double)rng.range(-2, 2)};
          np = a + (t4 / 4.) * (b - a) + cross(b - a, ax);
          if (t4 < 0) t4 = 0;
          if (t4 > 4) t4 = 4;
        }
      }
      J d;
      d("of", op)("a", i)("mode", mode)("p", p);
      std::string dd = d.str();
      about(dd.substr(1, dd.size() - 2));
      long r = 0;
      std::string xx;
      try {
        if (op == "flip") r = M.flipEdge(e) ? 1 : 0;
        if (op == "split") r = eid(mode == 0 ? M.splitEdge(e, t4 / 4.) : mode == 1 ? M.splitEdge(e, np) : M.splitEdge(e, t4 / 4., np));
        if (op == "coll") r = eid(mode == 0 ? M.collapseEdge(e, t4 / 4.) : mode == 1 ? M.collapseEdge(e, np) : M.collapseEdge(e, t4 / 4., np));
      } catch (const std::exception& ex) {
        xx = "exception";
      }
      j("op", op)("a", std::vector<long>{i})("t", t4 * 1024)("mode", mode)("np", sc(np))("x", xx)("r", r);
      log(j, before);
    }
  }
  vt::done();
  return 0;
}
