// Records cutAlongEdges() on small manifold meshes, for specs/CutTrace.tla (C32).
#include "geometrycentral/surface/surgery.h"
#include "meshops.h"
#include "seeds.h"
#include <memory>
#include <set>
using namespace vt;
typedef std::vector<long> L;

static long initEvent(ManifoldSurfaceMesh& m) { return emit(J()("op", "init")("s", meshState(m))); }
static void cut(ManifoldSurfaceMesh& m, long par, const std::set<size_t>& X) {
  static long calls = 0;
  EdgeData<char> c(m, ++calls % 3 == 0); // (the default says nothing about the edges there are)
  for (Edge e : m.edges()) c[e] = false;
  L a;
  for (size_t e : X) c[m.edge(e)] = true, a.push_back((long)e + 1);
  std::string s = J()("of", "cut")("p", par)("a", a).str();
  about(s.substr(1, s.size() - 2));
  cpuLimit(5);
  std::string before = meshState(m).str(), x;
  J st;
  st("H", L());
  L pr;
  try {
    auto r = cutAlongEdges(m, c);
    ManifoldSurfaceMesh& n = *std::get<0>(r);
    HalfedgeData<Halfedge>& ph = std::get<1>(r);
    st = meshState(n);
    for (Halfedge h : n.halfedges()) put(pr, eid(h), ph[h] == Halfedge() ? 0 : ph[h].getMesh() != &m ? 888888 : eid(ph[h]));
  } catch (std::exception& e) {
    x = *e.what() ? std::string(e.what()).substr(0, 60) : "exception";
  }
  emit(J()("op", "cut")("p", par)("a", a)("x", x)("keep", before == meshState(m).str())("s", st)("par", pr));
}
static std::set<size_t> randomForest(ManifoldSurfaceMesh& m, Rng& R, bool touch) {
  std::set<size_t> X;
  std::vector<size_t> comp(m.nVerticesCapacity());
  std::vector<int> bd(m.nVerticesCapacity(), 0);
  for (Vertex v : m.vertices()) comp[v.getIndex()] = v.getIndex(), bd[v.getIndex()] = v.isBoundary();
  std::vector<size_t> E;
  for (Edge e : m.edges())
    if (!e.isBoundary()) E.push_back(e.getIndex());
  for (size_t k = E.size(); k > 1; k--) std::swap(E[k - 1], E[R.below(k)]);
  size_t want = R.range(1, (int)std::max<size_t>(1, E.size()));
  for (size_t e : E) {
    if (X.size() >= want) break;
    Halfedge h = m.edge(e).halfedge();
    size_t a = comp[h.vertex().getIndex()], b = comp[h.twin().vertex().getIndex()];
    if (a == b || (touch && bd[a] + bd[b] > 1)) continue;
    for (size_t& c : comp)
      if (c == b) c = a;
    bd[a] += bd[b];
    X.insert(e);
  }
  return X;
}
int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long shard = A.num("shard", 0), shards = A.num("shards", 1), iters = A.num("iters", 50), full = A.num("full", 9);
  Rng R((uint64_t)A.num("seed", 1) * 104729 + (uint64_t)shard);
  auto seeds = seedMeshes();
  long job = 0;
  for (auto& S : seeds) { // every set of edges of the smallest meshes, all single edges and pairs of the others
    ManifoldSurfaceMesh m(S.second);
    size_t n = m.nEdges();
    long par = 0;
    auto one = [&](const std::set<size_t>& X) {
      if (job++ % shards != shard) return;
      if (!par) par = initEvent(m);
      cut(m, par, X);
    };
    if ((long)n <= full)
      for (size_t b = 0; b < ((size_t)1 << n); b++) {
        std::set<size_t> X;
        for (size_t k = 0; k < n; k++)
          if (b >> k & 1) X.insert(k);
        one(X);
      }
    else
      for (size_t a = 0; a < n; a++)
        for (size_t b = a; b < n; b++)
          if (n < 25 || a == b || R.chance(20)) one({a, b});
  }
  std::vector<std::pair<std::string, int>> w = {{"flip", 20}, {"insVE", 8}, {"split", 10}, {"conn", 9}, {"insV", 8}, {"tri", 6},
                                                 {"collapse", 14}, {"rmE", 8}, {"rmV", 6}, {"rmF", 8}};
  for (long it = 0; it < iters; it++) {
    ManifoldSurfaceMesh m(R.pick(seeds).second);
    size_t maxHe = 24 + R.below(50);
    for (int k = R.range(0, 12); k > 0 && m.nFaces() > 0; k--) applyOp(m, randomOp(m, R, w, maxHe));
    if (m.nFaces() == 0 || m.nHalfedges() > 130) continue;
    long par = initEvent(m);
    for (int k = 0; k < 8; k++) {
      std::set<size_t> X = randomForest(m, R, R.chance(80));
      if (R.chance(5))
        for (Edge e : m.edges())
          if (R.chance(10)) X.insert(e.getIndex());
      cut(m, par, X);
    }
  }
  vt::done();
  _exit(0);
}
