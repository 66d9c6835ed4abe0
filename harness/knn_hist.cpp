// Records nearest-neighbour and radius queries, per-point neighbourhoods and point-cloud histories, for
// specs/NeighborsTrace.tla (C22). Coordinates are whole numbers, so that distances compare exactly.
#include "geometrycentral/pointcloud/neighborhoods.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#include "geometrycentral/utilities/knn.h"
#include "vt.h"
#include <memory>
using namespace vt;
using namespace geometrycentral;
using namespace geometrycentral::pointcloud;
typedef std::vector<long> L;
struct Cloud : public PointCloud { // gives access to the protected mutators
  using PointCloud::deleteElement;
  using PointCloud::getNewPoint;
  using PointCloud::PointCloud;
};
static L ints(const std::vector<size_t>& v) {
  L r;
  for (size_t x : v) r.push_back(x < 100000 ? (long)x + 1 : 99999);
  return r;
}
template <class F>
static std::string guarded(F f) {
  try {
    f();
    return "";
  } catch (std::exception& e) {
    return *e.what() ? std::string(e.what()).substr(0, 40) : "exception";
  }
}
static Vector3 v3(const L& a) { return Vector3{(double)a[0], (double)a[1], (double)a[2]}; }
static void ab(const J& d) {
  std::string s = d.str();
  about(s.substr(1, s.size() - 2));
  cpuLimit(5);
}

static void queries(Rng& R, long nq) {
  int span = R.pick(std::vector<int>{1, 2, 5, 20});
  long n = R.chance(70) ? R.range(1, 14) : R.range(15, 60);
  bool flat = R.chance(20);
  std::vector<L> pts;
  for (long k = 0; k < n; k++) {
    if (k && R.chance(15))
      pts.push_back(R.pick(pts)); // duplicate
    else
      pts.push_back({R.range(-span, span), R.range(-span, span), flat ? 0 : R.range(-span, span)});
  }
  std::vector<Vector3> pv;
  for (auto& p : pts) pv.push_back(v3(p));
  long par = emit(J()("op", "init")("pts", pts));
  ab(J()("of", "build")("p", par));
  NearestNeighborFinder f(pv);
  for (long q = 0; q < nq; q++) {
    L c = R.chance(30) ? R.pick(pts) : L{R.range(-span - 2, span + 2), R.range(-span - 2, span + 2), R.range(-span - 2, span + 2)};
    long k = R.chance(10) ? n + R.range(-1, 2) : R.range(0, (int)std::min(n, 12l));
    if (k < 0) k = 0;
    std::vector<size_t> out;
    ab(J()("of", "near")("p", par)("q", c)("k", k));
    std::string x = guarded([&] { out = f.kNearest(v3(c), (size_t)k); });
    emit(J()("op", "near")("p", par)("q", c)("k", k)("x", x)("r", ints(out)));
    long i = R.range(0, (int)n - 1);
    k = R.chance(10) ? n + R.range(-2, 1) : R.range(0, (int)std::min(n - 1, 12l));
    if (k < 0) k = 0;
    out.clear();
    ab(J()("of", "neigh")("p", par)("i", i + 1)("k", k));
    x = guarded([&] { out = f.kNearestNeighbors((size_t)i, (size_t)k); });
    emit(J()("op", "neigh")("p", par)("i", i + 1)("k", k)("x", x)("r", ints(out)));
    long rad = R.range(0, 2 * span + 2);
    ab(J()("of", "ball")("p", par)("q", c)("rad", rad));
    out = f.radiusSearch(v3(c), (double)rad + .25); // (no point lies exactly on the sphere)
    emit(J()("op", "ball")("p", par)("q", c)("rad", rad)("r", ints(out)));
  }
  // per-point neighbourhoods
  PointCloud cloud((size_t)n);
  PointData<Vector3> pos(cloud);
  for (long k = 0; k < n; k++) pos[cloud.point((size_t)k)] = pv[(size_t)k];
  long k = R.chance(15) ? n + R.range(-1, 1) : R.range(1, (int)std::max(1l, std::min(n - 1, 8l)));
  if (k < 0) k = 0;
  std::vector<L> nb;
  ab(J()("of", "hoods")("p", par)("k", k));
  std::string x = guarded([&] {
    Neighborhoods h(cloud, pos, (unsigned)k);
    for (Point p : cloud.points()) {
      L l;
      for (Point q : h.neighbors[p]) l.push_back(q.getIndex() < 100000 ? (long)q.getIndex() + 1 : 99999);
      nb.push_back(l);
    }
  });
  emit(J()("op", "hoods")("p", par)("k", k)("x", x)("r", nb));
}

static J cloudState(Cloud& c, PointData<int>& d) {
  L live, val, ind, vi;
  for (Point p : c.points()) {
    live.push_back((long)p.getIndex() + 1);
    val.push_back(d[p]);
  }
  PointData<size_t> pi = c.getPointIndices();
  for (Point p : c.points()) ind.push_back((long)pi[p]);
  return J()("live", live)("val", val)("ind", ind)("n", c.nPoints())("comp", c.isCompressed())("cap", c.nPointsCapacity())(
      "ok", guarded([&] { c.validateConnectivity(); }));
}
static void cloudHistory(Rng& R, long len) {
  std::unique_ptr<Cloud> c(new Cloud((size_t)R.range(0, 5)));
  std::unique_ptr<PointData<int>> d(new PointData<int>(*c, -1));
  int next = 1;
  for (Point p : c->points()) (*d)[p] = next++;
  long par = emit(J()("op", "cinit")("s", cloudState(*c, *d)));
  for (long k = 0; k < len; k++) {
    int o = R.range(0, 9);
    J j;
    if (o < 4) {
      ab(J()("of", "new")("p", par));
      Point p = c->getNewPoint();
      long was = (*d)[p];
      (*d)[p] = next++;
      j("op", "new")("p", par)("id", (long)p.getIndex() + 1)("was", was)("v", next - 1);
    } else if (o < 7) {
      std::vector<size_t> live;
      for (Point p : c->points()) live.push_back(p.getIndex());
      if (live.empty()) continue;
      size_t i = R.pick(live);
      ab(J()("of", "delete")("p", par)("id", i + 1));
      c->deleteElement(c->point(i));
      j("op", "delete")("p", par)("id", i + 1);
    } else if (o < 9) {
      ab(J()("of", "compress")("p", par));
      c->compress();
      j("op", "compress")("p", par);
    } else {
      ab(J()("of", "copy")("p", par));
      std::unique_ptr<PointCloud> pc = c->copy();
      // the copy must answer like the original, and go its own way afterwards
      L live;
      for (Point p : pc->points()) live.push_back((long)p.getIndex() + 1);
      PointData<size_t> pi = pc->getPointIndices();
      L ind;
      for (Point p : pc->points()) ind.push_back((long)pi[p]);
      std::string ok = guarded([&] { pc->validateConnectivity(); });
      bool comp = pc->isCompressed();
      size_t n = pc->nPoints(), cap = pc->nPointsCapacity();
      pc->compress();
      L live2;
      for (Point p : pc->points()) live2.push_back((long)p.getIndex() + 1);
      j("op", "copy")("p", par)("live", live)("ind", ind)("n", n)("cap", cap)("comp", comp)("ok", ok)("live2", live2);
    }
    j("s", cloudState(*c, *d));
    par = emit(j);
  }
  d.reset();
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long iters = A.num("iters", 50);
  Rng R((uint64_t)A.num("seed", 1) * 104729 + (uint64_t)A.num("shard", 0));
  for (long it = 0; it < iters; it++) {
    queries(R, 12);
    cloudHistory(R, 25);
  }
  vt::done();
  _exit(0);
}
