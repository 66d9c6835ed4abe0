// Records direction fields on small surfaces and the singularities found in them, for specs/FieldTrace.tla (C29). Angles in millionths.
#include "geometrycentral/surface/direction_fields.h"
#include "surfworld.h"
using namespace vt;

struct World {
  std::unique_ptr<ManifoldSurfaceMesh> m;
  std::unique_ptr<EdgeLengthGeometry> lg;
  std::unique_ptr<VertexPositionGeometry> pg;
  std::string kind;
  L level;             // cylinders: height of every vertex (millionths), then of every face (in steps)
  L flevel;
  L upV, upF;          // prisms: a halfedge along the axis out of every vertex, one in every face
  std::vector<size_t> name; // old label of every vertex
  IntrinsicGeometryInterface& g() { return pg ? (IntrinsicGeometryInterface&)*pg : *lg; }
};
typedef std::function<double(size_t, size_t)> Len;

// the same surface with other numbers: vertices renamed, faces and their corners in another order
static std::vector<size_t> relabel(Rng& R, Polys& P, std::vector<size_t>* fperm = nullptr) {
  size_t nV = 0;
  for (auto& f : P)
    for (size_t v : f) nV = std::max(nV, v + 1);
  std::vector<size_t> to(nV), old(nV), ord(P.size());
  for (size_t i = 0; i < nV; i++) to[i] = i;
  for (size_t i = nV; i > 1; i--) std::swap(to[i - 1], to[R.below(i)]);
  for (size_t i = 0; i < nV; i++) old[to[i]] = i;
  for (size_t i = 0; i < P.size(); i++) ord[i] = i;
  for (size_t i = P.size(); i > 1; i--) std::swap(ord[i - 1], ord[R.below(i)]);
  Polys Q;
  for (size_t k : ord) {
    std::vector<size_t> f;
    size_t r = R.below(P[k].size());
    for (size_t i = 0; i < P[k].size(); i++) f.push_back(to[P[k][(i + r) % P[k].size()]]);
    Q.push_back(f);
  }
  P = Q;
  if (fperm) *fperm = ord;
  return old;
}
static void withLengths(World& w, Rng& R, Polys P, Len len, std::vector<size_t>* fperm = nullptr) {
  w.name = relabel(R, P, fperm);
  w.m.reset(new ManifoldSurfaceMesh(P));
  EdgeData<double> l(*w.m);
  for (Edge e : w.m->edges()) l[e] = len(w.name[e.firstVertex().getIndex()], w.name[e.secondVertex().getIndex()]);
  w.lg.reset(new EdgeLengthGeometry(*w.m, l));
}
static void withPositions(World& w, Rng& R, Polys P, const std::vector<Vector3>& pos) {
  w.name = relabel(R, P);
  w.m.reset(new ManifoldSurfaceMesh(P));
  VertexData<Vector3> p(*w.m);
  for (Vertex v : w.m->vertices()) p[v] = pos[w.name[v.getIndex()]];
  w.pg.reset(new VertexPositionGeometry(*w.m, p));
}

static const Polys tetP = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
static const Polys octP = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
static const Polys icoP = {{0, 11, 5}, {0, 5, 1},  {0, 1, 7},   {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4}, {11, 10, 2}, {10, 7, 6}, {7, 1, 8},
                           {3, 9, 4},  {3, 4, 2},  {3, 2, 6},   {3, 6, 8},  {3, 8, 9},   {4, 9, 5}, {2, 4, 11}, {6, 2, 10},  {8, 6, 7},  {9, 8, 1}};
static const Polys cubeP = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
static Polys split(Rng& R, const Polys& P) {
  Polys Q;
  for (auto& f : P)
    if (f.size() == 3)
      Q.push_back(f);
    else if (R.range(0, 1))
      Q.push_back({f[0], f[1], f[2]}), Q.push_back({f[0], f[2], f[3]});
    else
      Q.push_back({f[0], f[1], f[3]}), Q.push_back({f[1], f[2], f[3]});
  return Q;
}
// a ring of quads in a grid; row diagonals all alike when uniform
static Polys tube(Rng& R, int n, int m, bool wrapY, bool uniform, L* lev = nullptr) {
  Polys P;
  int my = wrapY ? m : m + 1;
  auto id = [&](int i, int j) { return (size_t)((j % my) * n + (i % n)); };
  for (int j = 0; j < m; j++) {
    bool one = R.range(0, 1);
    for (int i = 0; i < n; i++) {
      if (!uniform) one = R.range(0, 1);
      size_t a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
      if (one)
        P.push_back({a, b, c}), P.push_back({a, c, d});
      else
        P.push_back({a, b, d}), P.push_back({b, c, d});
      if (lev) lev->push_back(3 * j), lev->push_back(3 * j + 1);
    }
  }
  return P;
}

static bool begin(Rng& R, World& w) {
  int kind = R.range(0, 11);
  if (kind <= 3) { // anything, or a flat polygon
    SurfWorld s;
    s.make(R, kind == 0, false, 10, 14, 32);
    Polys P = s.in->getFaceVertexList();
    w.kind = "any";
    std::map<std::pair<size_t, size_t>, double> l;
    for (Edge e : s.in->edges()) l[std::minmax(e.firstVertex().getIndex(), e.secondVertex().getIndex())] = s.geo->edgeLengths[e];
    withLengths(w, R, P, [&](size_t a, size_t b) { return l[std::minmax(a, b)]; });
  } else if (kind == 4) { // solids every face of which, or every vertex of which, is alike
    w.kind = "solid";
    int k = R.range(0, 3);
    double s = .5 + real(R);
    if (k == 0) {
      double a = 1 + .2 * real(R), b = 1 + .2 * real(R), c = 1 + .2 * real(R);
      withLengths(w, R, tetP, [&](size_t x, size_t y) {
        auto p = std::minmax(x, y);
        if (p == std::pair<const size_t&, const size_t&>(0, 1) || (p.first == 2 && p.second == 3)) return s * a;
        if ((p.first == 0 && p.second == 2) || (p.first == 1 && p.second == 3)) return s * b;
        return s * c;
      });
    } else if (k == 1)
      withLengths(w, R, octP, [&](size_t, size_t) { return s; });
    else if (k == 2)
      withLengths(w, R, icoP, [&](size_t, size_t) { return s; });
    else {
      withLengths(w, R, split(R, cubeP), [&](size_t x, size_t y) {
        int d = (int)(x % 4) - (int)(y % 4);
        int diff = (x / 4 != y / 4) + (d == 0 ? 0 : (std::abs(d) == 2 ? 2 : 1));
        return s * std::sqrt((double)diff);
      });
    }
  } else if (kind == 5 || kind == 6) { // flat tori
    w.kind = "torus";
    int n = R.range(3, 4), m = R.range(3, 4);
    double a = .7 + real(R), c = .7 + real(R), b = .8 * (real(R) - .5);
    withLengths(w, R, tube(R, n, m, true, false), [&](size_t x, size_t y) {
      int dx = (int)(x % n) - (int)(y % n), dy = (int)(x / n) - (int)(y / n);
      if (dx > 1) dx = -1;
      if (dx < -1) dx = 1;
      if (dy > 1) dy = -1;
      if (dy < -1) dy = 1;
      return std::hypot(dx * a + dy * b, dy * c);
    });
  } else if (kind <= 8) { // cylinders
    w.kind = "cylinder";
    int n = R.range(3, 5), m = R.range(1, 4);
    double a = .6 + real(R);
    std::vector<double> y(m + 1, 0);
    for (int j = 0; j < m; j++) y[j + 1] = y[j] + .3 + real(R) * 1.5;
    L lev;
    Polys P = tube(R, n, m, false, true, &lev);
    std::vector<size_t> fp;
    withLengths(w, R, P, [&](size_t p, size_t q) {
      int dx = std::abs((int)(p % n) - (int)(q % n));
      if (dx > 1) dx = 1;
      return std::hypot(dx * a, y[p / n] - y[q / n]);
    }, &fp);
    for (size_t i = 0; i < w.name.size(); i++) w.level.push_back(mu(y[w.name[i] / n]));
    for (size_t k : fp) w.flevel.push_back(lev[k]);
    w.level.push_back(mu(y[m])), w.flevel.push_back(3 * m - 2);
  } else if (kind == 9) { // upright open prisms over a convex polygon
    w.kind = "prism";
    int n = R.range(3, 6), m = R.range(1, 3);
    std::vector<double> y(m + 1, 0);
    for (int j = 0; j < m; j++) y[j + 1] = y[j] + .3 + real(R);
    std::vector<Vector3> pos;
    double sx = .7 + real(R), sy = .7 + real(R), t0 = 7 * real(R);
    for (int j = 0; j <= m; j++)
      for (int i = 0; i < n; i++) {
        double t = t0 + 2 * PI * (i + .0 * real(R)) / n;
        pos.push_back(Vector3{sx * std::cos(t), sy * std::sin(t), y[j]});
      }
    Polys P = tube(R, n, m, false, false);
    withPositions(w, R, P, pos);
    w.upV.assign(w.m->nVertices(), 0), w.upF.assign(w.m->nFaces(), 0);
    for (Halfedge h : w.m->halfedges())
      if (w.name[h.vertex().getIndex()] % n == w.name[h.tipVertex().getIndex()] % n) {
        w.upV[h.vertex().getIndex()] = hid(h);
        if (h.isInterior()) w.upF[h.face().getIndex()] = hid(h);
      }
  } else { // closed surfaces in space
    w.kind = "space";
    Polys P;
    std::vector<Vector3> pos;
    int k = R.range(0, 3);
    double f = (1 + std::sqrt(5.)) / 2;
    if (k == 0)
      P = tetP, pos = {{0, 0, 0}, {1.3, 0, 0}, {.5, 1.2, 0}, {.4, .4, 1.1}};
    else if (k == 1)
      P = octP, pos = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
    else if (k == 2)
      P = icoP, pos = {{-1, f, 0}, {1, f, 0}, {-1, -f, 0}, {1, -f, 0}, {0, -1, f}, {0, 1, f}, {0, -1, -f}, {0, 1, -f}, {f, 0, -1}, {f, 0, 1}, {-f, 0, -1}, {-f, 0, 1}};
    else {
      int n = R.range(4, 5), m = R.range(3, 4);
      P = tube(R, n, m, true, false);
      for (int j = 0; j < m; j++)
        for (int i = 0; i < n; i++) {
          double s = 2 * PI * i / n, t = 2 * PI * j / m;
          pos.push_back(Vector3{(2 + std::cos(t)) * std::cos(s), (2 + std::cos(t)) * std::sin(s), std::sin(t)});
        }
    }
    double j = R.pick(std::vector<double>{.05, .3});
    for (auto& p : pos) p += Vector3{real(R) - .5, real(R) - .5, real(R) - .5} * j;
    withPositions(w, R, P, pos);
  }
  if (w.m->nConnectedComponents() > 1) return false;
  for (Face f : w.m->faces()) {
    int b = 0;
    for (Edge e : f.adjacentEdges()) b += e.isBoundary();
    if (b == 3) return false;
  }
  return true;
}

// is the smoothest field of this symmetry decided beyond rounding: no other comes close, and it vanishes nowhere
static bool decided(World& w, int n, bool atFaces) {
  IntrinsicGeometryInterface& g = w.g();
  ManifoldSurfaceMesh& m = *w.m;
  size_t N = atFaces ? m.nFaces() : m.nVertices();
  Eigen::MatrixXcd A = Eigen::MatrixXcd::Zero(N, N);
  Eigen::VectorXd q(N);
  g.requireEdgeCotanWeights(), g.requireTransportVectorsAlongHalfedge(), g.requireTransportVectorsAcrossHalfedge();
  g.requireVertexDualAreas(), g.requireFaceAreas();
  for (size_t i = 0; i < N; i++) q(i) = 1 / std::sqrt(atFaces ? g.faceAreas[m.face(i)] : g.vertexDualAreas[m.vertex(i)]);
  for (Halfedge h : m.halfedges()) {
    if (atFaces && h.edge().isBoundary()) continue;
    size_t i = atFaces ? h.face().getIndex() : h.vertex().getIndex(), k = atFaces ? h.twin().face().getIndex() : h.tipVertex().getIndex();
    double c = atFaces ? 1 : g.edgeCotanWeights[h.edge()];
    Vector2 r = (atFaces ? g.transportVectorsAcrossHalfedge[h.twin()] : g.transportVectorsAlongHalfedge[h.twin()]).pow(n);
    A(i, i) += c * q(i) * q(i), A(i, k) -= c * q(i) * q(k) * std::complex<double>(r);
  }
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> S(A);
  std::vector<std::pair<double, size_t>> l;
  for (size_t i = 0; i < N; i++) l.push_back({std::fabs(S.eigenvalues()(i)), i});
  std::sort(l.begin(), l.end());
  if (N < 2 || l[1].first < 1.5 * l[0].first + 1e-6) return false;
  double lo = 1e9, hi = 0;
  for (size_t i = 0; i < N; i++) {
    double x = std::abs(S.eigenvectors()(i, l[0].second)) * q(i);
    lo = std::min(lo, x), hi = std::max(hi, x);
  }
  return lo > 1e-3 * hi;
}

struct Run {
  World& w;
  ManifoldSurfaceMesh& m;
  IntrinsicGeometryInterface& g;
  long at = 0, as = 0, last = 0;
  Run(World& w_) : w(w_), m(*w_.m), g(w_.g()) {}
  void start(long prev, const L& hm) {
    SurfWorld s;
    J j = s.mesh(m);
    L an(m.nHalfedges(), 0);
    for (Face f : m.faces()) {
      Halfedge h = f.halfedge();
      auto len = [&](Halfedge x) {
        return w.pg ? norm(w.pg->vertexPositions[x.vertex()] - w.pg->vertexPositions[x.tipVertex()]) : w.lg->edgeLengths[x.edge()];
      };
      double a = len(h), b = len(h.next()), c = len(h.next().next());
      an[h.getIndex()] = mu(angleOpp(b, c, a)), an[h.next().getIndex()] = mu(angleOpp(c, a, b)), an[h.next().next().getIndex()] = mu(angleOpp(a, b, c));
    }
    // angles stretched around every vertex
    std::vector<double> sum(m.nVertices(), 0);
    for (Halfedge h : m.halfedges())
      if (h.isInterior()) sum[h.vertex().getIndex()] += an[h.getIndex()];
    L sc(m.nHalfedges(), 0);
    for (Halfedge h : m.halfedges())
      if (h.isInterior()) sc[h.getIndex()] = mu(an[h.getIndex()] / sum[h.vertex().getIndex()] * (h.vertex().isBoundary() ? PI : 2 * PI));
    J e = J()("op", "init")("m", j)("an", an)("sc", sc)("kind", w.kind)("lev", w.level)("flev", w.flevel)("upV", w.upV)("upF", w.upF)("hm", hm);
    if (prev) e("p", prev);
    at = emit(e);
  }
  J head(const char* op, int n) {
    J e = J()("op", op)("n", n)("p", at)("as", as);
    std::string t = J()("of", op)("n", n)("p", at).str();
    about(t.substr(1, t.size() - 2));
    cpuLimit(20);
    return e;
  }
  void vfield(const char* op, int n, bool sure, std::function<VertexData<Vector2>()> make) {
    J e = head(op, n);
    try {
      VertexData<Vector2> x = make();
      L phi, len, idx;
      for (Vertex v : m.vertices()) phi.push_back(mu(x[v].arg())), len.push_back(mu(x[v].norm()));
      FaceData<int> k = computeFaceIndex(g, x, n);
      for (Face f : m.faces()) idx.push_back(k[f]);
      last = emit(e("phi", phi)("len", len)("idx", idx)("sure", (int)sure)("threw", 0));
    } catch (std::exception& x) {
      last = emit(e("threw", 1)("why", std::string(x.what()))("sure", 0));
    }
  }
  void ffield(const char* op, int n, bool sure, std::function<FaceData<Vector2>()> make) {
    J e = head(op, n);
    try {
      FaceData<Vector2> x = make();
      L phi, len, idx;
      for (Face f : m.faces()) phi.push_back(mu(x[f].arg())), len.push_back(mu(x[f].norm()));
      VertexData<int> k = computeVertexIndex(g, x, n);
      for (Vertex v : m.vertices()) idx.push_back(k[v]);
      last = emit(e("phi", phi)("len", len)("idx", idx)("sure", (int)sure)("threw", 0));
    } catch (std::exception& x) {
      last = emit(e("threw", 1)("why", std::string(x.what()))("sure", 0));
    }
  }
  void op(int o, int n) {
    if (o == 0)
      vfield("vsmooth", n, decided(w, n, false), [&] { return computeSmoothestVertexDirectionField(g, n); });
    else if (o == 1)
      ffield("fsmooth", n, decided(w, n, true), [&] { return computeSmoothestFaceDirectionField(g, n); });
    else if (o == 2)
      vfield("vbound", n, true, [&] { return computeSmoothestBoundaryAlignedVertexDirectionField(g, n); });
    else if (o == 3)
      ffield("fbound", n, true, [&] { return computeSmoothestBoundaryAlignedFaceDirectionField(g, n); });
    else if (o == 4)
      vfield("vcurv", n, true, [&] { return computeCurvatureAlignedVertexDirectionField(*w.pg, n); });
    else
      ffield("fcurv", n, true, [&] { return computeCurvatureAlignedFaceDirectionField(*w.pg, n); });
  }
};

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long iters = A.num("iters", 40), seed = A.num("seed", 1), shard = A.num("shard", 0);
  for (long it = 0; it < iters; it++) {
    Rng R(seed * 1000003 + shard * 7919 + it * 31 + 29);
    World w;
    if (!begin(R, w)) continue;
    Run r(w);
    r.start(0, {});
    struct Did {
      int o, n;
      long at;
    };
    std::vector<Did> did;
    bool again = false;
    for (int rep = 0; rep < 8; rep++) {
      int n = R.range(1, 6), o = R.range(0, 11);
      if (w.kind == "solid") n = R.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 10});
      if (o == 6 || o == 7) {
        if (w.kind == "cylinder")
          o -= 4;
        else if (w.pg) {
          o -= 2;
          if (R.range(0, 3)) n = R.range(0, 1) ? 2 : 4;
        } else
          continue;
      } else if (o < 6)
        o = o < 4 ? o / 2 : o - 2;
      if (o < 6) {
        r.op(o, n);
        did.push_back({o, n, r.last});
      } else {
        double big = R.pick(std::vector<double>{0, .5, 3});
        bool few = R.range(0, 2) == 0; // only a few directions
        auto some = [&] { return Vector2::fromAngle(few ? .1 + R.below(3) * 2.1 : real(R) * 2 * PI) * (1 + big * real(R)); };
        if (o <= 9)
          r.vfield("vrandom", n, true, [&] {
            VertexData<Vector2> x(r.m);
            for (Vertex v : r.m.vertices()) x[v] = some();
            return x;
          });
        else
          r.ffield("frandom", n, true, [&] {
            FaceData<Vector2> x(r.m);
            for (Face f : r.m.faces()) x[f] = some();
            return x;
          });
      }
      if (!again && R.range(0, 3) == 0 && w.lg) { // the geometry is given once more
        w.lg->refreshQuantities();
        again = true;
      }
    }
    if (did.empty() || R.range(0, 2) == 0 || w.kind == "solid") continue;
    // the same surface with other numbers, and the same fields on it
    World x;
    x.kind = "again";
    Polys P = w.m->getFaceVertexList();
    if (w.pg) {
      std::vector<Vector3> pos;
      for (Vertex v : w.m->vertices()) pos.push_back(w.pg->vertexPositions[v]);
      withPositions(x, R, P, pos);
    } else {
      std::map<std::pair<size_t, size_t>, double> l;
      for (Edge e : w.m->edges()) l[std::minmax(e.firstVertex().getIndex(), e.secondVertex().getIndex())] = w.lg->edgeLengths[e];
      withLengths(x, R, P, [&](size_t a, size_t b) { return l[std::minmax(a, b)]; });
    }
    std::map<std::pair<size_t, size_t>, long> where;
    for (Halfedge h : w.m->halfedges()) where[{h.vertex().getIndex(), h.tipVertex().getIndex()}] = hid(h);
    L hm;
    for (Halfedge h : x.m->halfedges()) hm.push_back(where[{x.name[h.vertex().getIndex()], x.name[h.tipVertex().getIndex()]}]);
    Run q(x);
    q.start(r.at, hm);
    for (auto& d : did) {
      q.as = d.at;
      q.op(d.o, d.n);
    }
  }
  vt::done();
  _exit(0);
}
