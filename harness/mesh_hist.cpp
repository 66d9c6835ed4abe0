// Records histories of connectivity edits on ManifoldSurfaceMesh, for specs/ManifoldTrace.tla.
//   mode=tree    every edit with every argument applied to every state reached by `depth`-1 edits from each seed mesh
//   mode=random  random histories
#include "meshops.h"
#include "seeds.h"
using namespace vt;

static bool withCounts = false;

// values attached to the elements, to see whether a refused edit disturbs them
struct Attached {
  VertexData<int> v;
  EdgeData<int> e;
  FaceData<int> f;
  HalfedgeData<int> h;
  explicit Attached(ManifoldSurfaceMesh& m) : v(m, 7), e(m, 7), f(m, 7), h(m, 7) {
    int k = 100;
    for (Vertex x : m.vertices()) v[x] = k++;
    for (Edge x : m.edges()) e[x] = k++;
    for (Face x : m.faces()) f[x] = k++;
    for (Halfedge x : m.halfedges()) h[x] = k++;
  }
  std::string finger(ManifoldSurfaceMesh& m) {
    std::ostringstream o;
    for (Vertex x : m.vertices()) o << v[x] << ",";
    for (Edge x : m.edges()) o << e[x] << ",";
    for (Face x : m.faces()) o << f[x] << ",";
    for (Halfedge x : m.halfedges()) o << h[x] << ",";
    o << "|" << m.nVertices() << "," << m.nEdges() << "," << m.nFaces() << "," << m.nBoundaryLoops() << "," << m.nHalfedges()
      << "," << m.nInteriorHalfedges() << "," << m.nCorners() << "," << m.isCompressed();
    return o.str();
  }
};

static J state(ManifoldSurfaceMesh& m) {
  J s = meshState(m);
  if (withCounts) s("c", meshCounts(m));
  return s;
}

static long emitInit(ManifoldSurfaceMesh& m, const std::string& src) {
  J j;
  j("op", "init")("src", src)("x", "")("s", state(m));
  return emit(j);
}
static long step(ManifoldSurfaceMesh& m, Attached& att, const Op& op, long parent) {
  J d;
  d("of", op.name)("a", op.a)("p", parent);
  std::string dd = d.str();
  about(dd.substr(1, dd.size() - 2));
  std::string before = att.finger(m);
  cpuLimit(5);
  OpResult R = applyOp(m, op);
  std::string after = att.finger(m);
  J j;
  j("op", op.name)("p", parent)("a", op.a)("x", R.x)("r", R.r)("keep", before == after)("s", state(m));
  long l = emit(j);
  J d2;
  d2("of", "queries after " + op.name)("a", op.a)("p", l);
  dd = d2.str();
  about(dd.substr(1, dd.size() - 2));
  return l;
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  withCounts = A.num("counts", 0);
  std::string kinds = A.str("kinds", "");
  long shard = A.num("shard", 0), shards = A.num("shards", 1), budget = A.num("events", 1000);
  auto seeds = seedMeshes();
  if (A.str("mode", "random") == "tree") {
    // depth-1: exhaustive; deeper levels: exhaustive on the smallest seeds, sampled otherwise
    Rng rng(A.num("seed", 1) * 1000 + shard);
    long depth = A.num("depth", 2);
    long pct = A.num("pct", 100);
    long job = 0;
    std::string only = A.str("seeds", "");
    for (auto& S : seeds) {
      if (!only.empty() && ("," + only + ",").find("," + S.first + ",") == std::string::npos) continue;
      ManifoldSurfaceMesh base(S.second);
      std::vector<Op> first = allOps(base, kinds);
      long rootLine = 0;
      for (const Op& o1 : first) {
        if ((job++) % shards != shard) continue;
        if (!rng.chance((int)A.num("pct1", 100))) continue;
        ManifoldSurfaceMesh m(S.second);
        Attached at(m);
        if (!rootLine) rootLine = emitInit(m, S.first);
        long l1 = step(m, at, o1, rootLine);
        if (depth < 2) continue;
        auto m1 = m.copy();
        for (const Op& o2 : allOps(*m1, kinds)) {
          if (!rng.chance((int)pct)) continue;
          auto m2 = m1->copy();
          Attached at2(*m2);
          step(*m2, at2, o2, l1);
          if (nLines() > budget) {
            vt::done();
            return 0;
          }
        }
      }
    }
  } else {
    long seed = A.num("seed", 1), len = A.num("len", 25);
    std::vector<std::pair<std::string, int>> w = {{"flip", 20}, {"insVE", 8}, {"split", 10}, {"conn", 9}, {"insV", 8}, {"tri", 6},
                                                   {"collapse", 14}, {"rmE", 8}, {"rmV", 6}, {"rmF", 8}, {"sep", 8},
                                                   {"switch", 5}, {"compress", 4}};
    if (!kinds.empty()) {
      std::vector<std::pair<std::string, int>> w2;
      for (auto& x : w)
        if (kinds.find("," + x.first + ",") != std::string::npos) w2.push_back(x);
      w = w2;
    }
    for (long it = 0; nLines() < budget; it++) {
      Rng rng((uint64_t)seed * 1000003 + shard * 7919 + it);
      auto& S = seeds[rng.below(seeds.size())];
      ManifoldSurfaceMesh m(S.second);
      Attached at(m);
      long p = emitInit(m, S.first);
      // each history leans towards some of the edits
      auto ww = w;
      for (auto& x : ww)
        if (rng.chance(40)) x.second = x.second * 5;
      size_t maxHe = 24 + rng.below(40);
      for (long k = 0; k < len; k++) {
        if (m.nFaces() == 0 || m.nHalfedges() > 200) break;
        Op op = randomOp(m, rng, ww, maxHe);
        p = step(m, at, op, p);
      }
    }
  }
  vt::done();
  return 0;
}
