// Records runs of remeshing, smoothing, Delaunay flipping, edge length adjustment and simplification step by step through a registered
// policy, for specs/RemeshTrace.tla (C28). Positions are in units of 1/10000, lengths and angles in millionths.
#include "geometrycentral/surface/mutation_manager.h"
#include "geometrycentral/surface/quadric_error_simplification.h"
#include "geometrycentral/surface/remeshing.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "trimesh.h"
#include "meshlog.h"
using namespace vt;
typedef std::vector<long> L;
typedef std::vector<L> LL;

static long fx(double x, double s) { return std::isfinite(x) && std::fabs(x) < 2000 ? std::lround(x * s) : 999999999; }
static long t4(double x) { return fx(x, 1e4); }
static long mu(double x) { return fx(x, 1e6); }
static L t4(Vector3 p) { return {t4(p.x), t4(p.y), t4(p.z)}; }
static double real(Rng& R) { return R.below(1000001) / 1e6; }

static Vector3 circum(Vector3 a, Vector3 b, Vector3 c) {
  Vector3 u = b - a, v = c - a, n = cross(u, v);
  return a + (cross(n, u) * dot(v, v) + cross(v, n) * dot(u, u)) / (2 * dot(n, n));
}
static double angleAt(Vector3 p, Vector3 a, Vector3 b) { return std::atan2(norm(cross(a - p, b - p)), dot(a - p, b - p)); }

struct Rem : public VertexRepositionPolicy, public EdgeFlipPolicy, public EdgeSplitPolicy, public EdgeCollapsePolicy {
  std::unique_ptr<ManifoldSurfaceMesh> m;
  std::unique_ptr<VertexPositionGeometry> g;
  std::unique_ptr<MutationManager> mm;
  std::string last;
  std::vector<J> steps;
  J step;
  bool pending = false;
  Vector3 P(Vertex v) { return g->vertexPositions[v]; }
  J state() {
    J s = meshState(*m);
    LL pos;
    for (Vertex v : m->vertices()) {
      if ((long)pos.size() < eid(v)) pos.resize(eid(v), {0, 0, 0});
      pos[eid(v) - 1] = t4(P(v));
    }
    s("pos", pos);
    return s;
  }
  void sync() {
    std::string s = meshState(*m).str();
    if (s == last) return;
    last = s;
    steps.push_back(J()("op", "compress")("s", state()));
  }
  double len(Edge e) { return norm(P(e.firstVertex()) - P(e.secondVertex())); }
  double opp(Edge e) {
    double r = 0;
    for (Halfedge h : {e.halfedge(), e.halfedge().twin()})
      if (h.isInterior()) r += angleAt(P(h.next().tipVertex()), P(h.vertex()), P(h.tipVertex()));
    return r;
  }
  // smallest angle between the face that arises when e shrinks to its midpoint and the face across, and whether there are boundary edges around
  double fold(Edge e, bool& bdry) {
    Vertex a = e.firstVertex(), b = e.secondVertex();
    Vector3 x = (P(a) + P(b)) / 2;
    double r = 100;
    bdry = false;
    for (Vertex v : {a, b})
      for (Halfedge h : v.outgoingHalfedges()) {
        Vertex p = h.next().vertex(), q = h.next().tipVertex();
        if (!h.isInterior()) {
          bdry = true;
          continue;
        }
        if (p == a || p == b || q == a || q == b) continue;
        Halfedge t = h.next().twin();
        if (!t.isInterior()) {
          bdry = true;
          continue;
        }
        Vector3 n1 = cross(P(q) - P(p), x - P(p)), n2 = cross(P(p) - P(q), P(t.next().tipVertex()) - P(q));
        double d = PI - std::atan2(norm(cross(n1, n2)), dot(n1, n2));
        r = std::min(r, d);
      }
    return r;
  }
  void beforeVertexReposition(const Vertex& v, const Vector3& o) override {
    sync();
    steps.push_back(J()("op", "move")("v", eid(v))("from", t4(P(v)))("off", t4(o))("n", mu(norm(o))));
  }
  void beforeEdgeFlip(const Edge& e) override {
    sync();
    step = J()("op", "flip")("e", eid(e))("an", mu(opp(e)));
  }
  void done_(long r) {
    last = meshState(*m).str();
    step("r", r)("s", state());
    steps.push_back(step);
  }
  void afterEdgeFlip(const Edge& e) override { done_(1); }
  void beforeEdgeSplit(const Edge& e, const double& t) override {
    sync();
    step = J()("op", "split")("e", eid(e))("len", mu(len(e)))("t", mu(t));
  }
  void afterEdgeSplit(const Halfedge& a, const Halfedge& b, const double& t) override { done_(eid(a)); }
  void beforeEdgeCollapse(const Edge& e, const double& t) override {
    sync();
    bool b;
    double f = fold(e, b);
    step = J()("op", "collapse")("e", eid(e))("len", mu(len(e)))("fold", mu(f))("t", mu(t));
  }
  void afterEdgeCollapse(const Vertex& v, const double& t) override { done_(eid(v)); }

  // no (nearly) degenerate faces and vertex normals
  bool sound(double least = .12) {
    for (Face f : m->faces()) {
      Vector3 a = P(f.halfedge().vertex()), b = P(f.halfedge().next().vertex()), c = P(f.halfedge().next().next().vertex());
      if (!(angleAt(a, b, c) > least && angleAt(b, c, a) > least && angleAt(c, a, b) > least)) return false;
      if (!(norm(b - a) > .002 && norm(c - a) > .002)) return false;
    }
    for (Vertex v : m->vertices()) {
      Vector3 n{0, 0, 0};
      for (Corner c : v.adjacentCorners()) {
        Halfedge h = c.halfedge();
        Vector3 x = P(h.tipVertex()) - P(v), y = P(h.next().tipVertex()) - P(v);
        n += unit(cross(x, y)) * angleAt(P(v), P(h.tipVertex()), P(h.next().tipVertex()));
      }
      if (norm(n) < .3) return false;
    }
    return true;
  }
  static bool simplicial(ManifoldSurfaceMesh& m) {
    std::set<std::pair<size_t, size_t>> S;
    for (Edge e : m.edges()) {
      size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex();
      if (a == b || !S.insert(std::minmax(a, b)).second) return false;
    }
    return true;
  }
  // a simplicial complex with a rough but sound embedding
  void make(Rng& R) {
    while (true) {
      std::vector<Vector3> pos;
      double noise = real(R) * .5;
      int k = R.range(0, 6);
      auto jit = [&]() { return Vector3{real(R) - .5, real(R) - .5, real(R) - .5} * noise; };
      if (k == 0) { // a patch
        int a = R.range(2, 4), b = R.range(1, 4);
        m = triMesh(gridPolys(a, b, false, false, R.range(1, 2)));
        for (int j = 0; j <= b; j++)
          for (int i = 0; i <= a; i++) pos.push_back(Vector3{.6 * i, .5 * j, 0} + jit() * .6);
        if (R.range(0, 1))
          for (Vector3& p : pos) p.z = 0;
      } else if (k == 1) { // a tube
        int a = R.range(4, 6), b = R.range(1, 3);
        m = triMesh(gridPolys(a, b, true, false, 1));
        for (int j = 0; j <= b; j++)
          for (int i = 0; i < a; i++) pos.push_back(Vector3{std::cos(2 * PI * i / a), std::sin(2 * PI * i / a), .7 * j} + jit() * .6);
      } else if (k == 2) { // a torus
        int a = R.range(4, 6), b = R.range(3, 4);
        m = triMesh(gridPolys(a, b, true, true, 1));
        for (int j = 0; j < b; j++)
          for (int i = 0; i < a; i++) {
            double u = 2 * PI * i / a, v = 2 * PI * j / b;
            pos.push_back(Vector3{(1.2 + .5 * std::cos(v)) * std::cos(u), (1.2 + .5 * std::cos(v)) * std::sin(u), .5 * std::sin(v)} + jit() * .5);
          }
      } else if (k == 3) { // an octahedron
        m = triMesh(seedMeshes()[5].second);
        Vector3 q[] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
        Vector3 s{.5 + real(R), .5 + real(R), .5 + real(R)};
        auto S = seedMeshes()[5].second;
        // place the poles of the octahedron at 4, 5 and the ring 0 2 1 3
        for (int i = 0; i < 6; i++) pos.push_back(Vector3{q[i].x * s.x, q[i].y * s.y, q[i].z * s.z} + jit());
      } else if (k == 4) { // a tetrahedron
        m = triMesh(seedMeshes()[0].second);
        pos = {{0, 0, 0}, {1, 0, 0}, {.5, .9, 0}, {.5, .3, .8}};
        for (Vector3& p : pos) p += jit();
      } else { // a cube or prism
        auto S = seedMeshes()[k == 5 ? 6 : 7].second;
        m = triMesh(S);
        if (k == 5)
          pos = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
        else
          pos = {{0, 0, 0}, {1, 0, 0}, {.5, .9, 0}, {0, 0, 1}, {1, 0, 1}, {.5, .9, 1}};
        for (Vector3& p : pos) p += jit() * .7;
      }
      VertexData<Vector3> vp(*m);
      for (size_t i = 0; i < m->nVertices(); i++) vp[i] = pos[i];
      g.reset(new VertexPositionGeometry(*m, vp));
      // refine it a little
      for (int n = R.range(0, 6); n > 0; n--) {
        if (R.range(0, 2) == 0) {
          Face f = m->face((size_t)R.range(0, (int)m->nFaces() - 1));
          Vector3 a = P(f.halfedge().vertex()), b = P(f.halfedge().next().vertex()), c = P(f.halfedge().next().next().vertex());
          Vertex v = m->insertVertex(f);
          g->vertexPositions[v] = (a + b + c) / 3;
        } else {
          Edge e = m->edge((size_t)R.range(0, (int)m->nEdges() - 1));
          double t = .3 + .4 * real(R);
          Vector3 p = P(e.firstVertex()) * (1 - t) + P(e.secondVertex()) * t;
          g->vertexPositions[m->splitEdgeTriangular(e).vertex()] = p;
        }
      }
      m->compress();
      if (simplicial(*m) && sound()) return;
    }
  }
  long at = 0;
  L flags(const char* which, Rng& R, bool& def) {
    L r;
    def = R.range(0, 3) != 0;
    bool bd = R.range(0, 2) == 0;
    if (which[0] == 'r') {
      VertexData<bool> d(*m, true);
      for (Vertex v : m->vertices()) {
        d[v] = bd ? !v.isBoundary() : R.range(0, 4) != 0;
        put(r, eid(v), d[v]);
      }
      mm->setRepositionableVertices(d, def);
    } else {
      EdgeData<bool> d(*m, true);
      for (Edge v : m->edges()) {
        d[v] = bd ? !v.isBoundary() : R.range(0, 4) != 0;
        put(r, eid(v), d[v]);
      }
      if (which[0] == 's') mm->setSplittableEdges(d, def);
      if (which[0] == 'c') mm->setCollapsibleEdges(d, def);
      if (which[0] == 'f') mm->setFlippableEdges(d, def);
    }
    return r;
  }
  void init(Rng& R) {
    mm.reset(new MutationManager(*m, *g));
    J j = J()("op", "init")("s", state());
    bool any = R.range(0, 1);
    static const char* names[] = {"rv", "se", "ce", "fe"};
    for (const char* n : names) {
      bool def = true;
      L r;
      if (any && R.range(0, 1)) r = flags(n, R, def);
      j(n, r)((std::string(n) + "d").c_str(), (int)def);
    }
    mm->registerPolicy(this);
    g->requireEdgeLengths();
    g->requireVertexNormals();
    LL pl; // planes of the faces, for simplification
    at = emit(j);
  }
  // measurements of the present state
  void measure(J& j, bool smooth) {
    LL nr, tg, ci, fo;
    L ar, an, le;
    for (Edge e : m->edges()) {
      put(an, eid(e), mu(opp(e))), put(le, eid(e), mu(len(e)));
      bool b;
      double f = fold(e, b);
      if ((long)fo.size() < eid(e)) fo.resize(eid(e));
      fo[eid(e) - 1] = {mu(f), (long)b};
    }
    if (smooth) {
      for (Vertex v : m->vertices()) {
        Vector3 n{0, 0, 0}, t{0, 0, 0};
        for (Halfedge h : v.outgoingHalfedges()) {
          if (h.isInterior()) {
            Vector3 x = P(h.tipVertex()), y = P(h.next().tipVertex());
            n += unit(cross(x - P(v), y - P(v))) * angleAt(P(v), x, y);
          } else
            t += unit(P(h.tipVertex()) - P(v));
          if (!h.twin().isInterior()) t -= unit(P(h.tipVertex()) - P(v));
        }
        if ((long)nr.size() < eid(v)) nr.resize(eid(v), {0, 0, 0}), tg.resize(eid(v), {0, 0, 0});
        nr[eid(v) - 1] = t4(unit(n));
        if (norm(t) > 0) tg[eid(v) - 1] = t4(unit(t));
      }
      for (Face f : m->faces()) {
        Vector3 a = P(f.halfedge().vertex()), b = P(f.halfedge().next().vertex()), c = P(f.halfedge().next().next().vertex());
        if ((long)ci.size() < eid(f)) ci.resize(eid(f), {0, 0, 0});
        ci[eid(f) - 1] = t4(circum(a, b, c));
        put(ar, eid(f), t4(norm(cross(b - a, c - a)) / 2));
      }
    }
    j("nr", nr)("tg", tg)("ci", ci)("ar", ar)("an", an)("le", le)("fo", fo);
  }
  bool run(Rng& R) {
    static const char* whats[] = {"remesh", "remesh", "adjust", "adjust", "delaunay", "lap", "cir", "simplify"};
    std::string what = whats[R.below(8)];
    g->refreshQuantities();
    if (what == "lap" || what == "cir" || what == "simplify")
      if (!sound()) what = "delaunay";
    J c = J()("op", "call")("what", what)("p", at);
    double mean = 0;
    for (Edge e : m->edges()) mean += len(e) / m->nEdges();
    RemeshOptions o;
    o.targetEdgeLength = R.range(0, 2) ? mean * (.5 + 1.3 * real(R)) : -(.6 + real(R));
    if (what == "adjust" && o.targetEdgeLength < 0) o.targetEdgeLength *= -mean;
    double target = o.targetEdgeLength < 0 ? -o.targetEdgeLength * mean : o.targetEdgeLength;
    o.maxIterations = R.range(0, 4);
    o.curvatureAdaptation = R.range(0, 2) ? 0 : .2 + real(R);
    o.minRelativeLength = R.range(0, 2) ? .05 : .4 + real(R);
    o.smoothStyle = R.range(0, 1) ? RemeshSmoothStyle::Circumcentric : RemeshSmoothStyle::Laplacian;
    int bc = R.range(0, 2);
    o.boundaryCondition = bc == 0 ? RemeshBoundaryCondition::Fixed : bc == 1 ? RemeshBoundaryCondition::Tangential : RemeshBoundaryCondition::Free;
    if (what == "remesh" && bc == 2) bc = 0, o.boundaryCondition = RemeshBoundaryCondition::Fixed;
    double size = R.range(0, 1) ? 1 : .25 + real(R) * .5;
    double tol = R.range(0, 3) == 0 ? -1 : .02 + real(R) * .4;
    c("target", mu(target))("curv", (int)(o.curvatureAdaptation > 0))("min", mu(o.minRelativeLength * target))("its", o.maxIterations)("bc", bc)("size", t4(size))("tol", mu(tol))(
        "fd", mu(target * 1.5))("half", mu(target * .5));
    measure(c, what == "lap" || what == "cir");
    LL pl;
    if (what == "simplify")
      for (Face f : m->faces()) {
        Vector3 a = P(f.halfedge().vertex()), b = P(f.halfedge().next().vertex()), d = P(f.halfedge().next().next().vertex());
        if ((long)pl.size() < eid(f)) pl.resize(eid(f), {0, 0, 0, 0});
        Vector3 n = unit(cross(b - a, d - a));
        L x = t4(n);
        x.push_back(t4(-dot(n, a)));
        pl[eid(f) - 1] = x;
      }
    c("pl", pl);
    std::string s = J()("of", what)("p", at).str();
    about(s.substr(1, s.size() - 2));
    cpuLimit(10);
    at = emit(c);
    steps.clear();
    last = meshState(*m).str();
    long r = 0;
    std::string why;
    try {
      if (what == "remesh") remesh(*m, *g, *mm, o);
      if (what == "adjust") r = adjustEdgeLengths(*m, *g, *mm, o);
      if (what == "delaunay") r = (long)fixDelaunay(*m, *g, *mm);
      if (what == "lap") r = mu(smoothByLaplacian(*m, *g, *mm, size, o.boundaryCondition));
      if (what == "cir") r = mu(smoothByCircumcenter(*m, *g, *mm, size, o.boundaryCondition));
      if (what == "simplify") quadricErrorSimplify(*m, *g, tol, *mm);
    } catch (std::exception& x) {
      why = x.what();
    }
    sync();
    for (J& x : steps) at = emit(x("p", at));
    J e = J()("op", "ret")("what", what)("r", r)("x", why)("p", at)("s", state());
    measure(e, false);
    L cl;
    bool far = false;
    for (Vertex v : m->vertices()) far = far || !(norm(P(v)) < 8);
    if (what == "remesh")
      for (Edge x : m->edges()) put(cl, eid(x), mu(g->edgeLengths[x]));
    e("cl", cl)("far", (int)far);
    at = emit(e);
    return why.empty() && !far && m->nVertices() < 60 && sound(.01);
  }
};

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  int iters = (int)A.num("iters", 10), len = (int)A.num("len", 3);
  Rng R((uint64_t)A.num("seed", 1) * 179424673 + (uint64_t)A.num("shard", 0));
  for (int it = 0; it < iters; it++) {
    Rem* h = new Rem(); // the manager owns it as a policy
    h->make(R);
    h->init(R);
    for (int k = 0; k < len; k++)
      if (!h->run(R)) break;
  }
  vt::done();
  _exit(0);
}
