// Records histories of DisjointSets / MarkedDisjointSets, for specs/DisjointSetsTrace.tla.
//   mode=tree    every sequence of operations up to `depth` on n elements
//   mode=random  long random sequences on more elements
#include "geometrycentral/utilities/disjoint_sets.h"
#include "vt.h"
using namespace vt;
using namespace geometrycentral;

struct World {
  bool marked;
  DisjointSets d;
  MarkedDisjointSets m;
  size_t n;
  World(bool mk, size_t n_) : marked(mk), d(n_), m(n_), n(n_) {}
};
static std::vector<long> reps(World W) { // a copy: looking must not disturb the history
  std::vector<long> r;
  for (size_t i = 0; i < W.n; i++) r.push_back((long)(W.marked ? W.m.find(i) : W.d.find(i)) + 1);
  return r;
}
static std::vector<long> marks(World W) {
  std::vector<long> r;
  if (W.marked)
    for (size_t i = 0; i < W.n; i++) r.push_back(W.m.isMarked(i) ? 1 : 0);
  return r;
}
struct Op {
  const char* n;
  size_t a, b;
};
static long step(World& W, Op o, long p) {
  J d;
  d("of", o.n)("p", p);
  std::string dd = d.str();
  about(dd.substr(1, dd.size() - 2));
  cpuLimit(5);
  long r = 0;
  std::string n = o.n;
  if (n == "merge") W.marked ? W.m.merge(o.a, o.b) : W.d.merge(o.a, o.b);
  if (n == "find") r = (long)(W.marked ? W.m.find(o.a) : W.d.find(o.a)) + 1;
  if (n == "mark") W.m.mark(o.a);
  if (n == "unmark") W.m.unmark(o.a);
  if (n == "isMarked") r = W.m.isMarked(o.a) ? 1 : 0;
  J j;
  j("op", o.n)("p", p)("a", (long)o.a + 1)("b", (long)o.b + 1)("r", r)("rep", reps(W))("mk", marks(W));
  return emit(j);
}
static long start(World& W) {
  J j;
  j("op", "init")("n", W.n)("marked", W.marked)("rep", reps(W))("mk", marks(W));
  return emit(j);
}
static long jobs = 0, shard = 0, shards = 1;
static void rec(World& W, long p, int depth) {
  for (size_t a = 0; a < W.n; a++) {
    std::vector<Op> ops;
    for (size_t b = 0; b < W.n; b++) ops.push_back({"merge", a, b});
    ops.push_back({"find", a, 0});
    if (W.marked) {
      ops.push_back({"mark", a, 0});
      ops.push_back({"unmark", a, 0});
      ops.push_back({"isMarked", a, 0});
    }
    for (auto& o : ops) {
      World C = W;
      long l = step(C, o, p);
      if (depth > 1) rec(C, l, depth - 1);
    }
  }
}
int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  shard = A.num("shard", 0);
  shards = A.num("shards", 1);
  std::string mode = A.str("mode", "random");
  if (mode == "tree") {
    for (int mk = 0; mk < 2; mk++) {
      size_t n = A.num("n", 3);
      // the first two operations are distributed over the shards
      World W(mk, n);
      long root = start(W), k = 0;
      for (size_t a = 0; a < n; a++)
        for (size_t b = 0; b < n; b++)
          for (size_t c = 0; c < n; c++) {
            if ((k++) % shards != shard) continue;
            World C = W;
            long l = step(C, {"merge", a, b}, root);
            l = step(C, mk ? Op{"mark", c, 0} : Op{"find", c, 0}, l);
            rec(C, l, (int)A.num("depth", 2));
          }
    }
  } else {
    long budget = A.num("events", 1000);
    for (long it = 0; nLines() < budget; it++) {
      Rng rng((uint64_t)A.num("seed", 1) * 1000003 + shard * 7919 + it);
      World W(rng.chance(65), 1 + rng.below(14));
      long p = start(W);
      for (int k = 0; k < 30; k++) {
        int x = (int)rng.below(100);
        size_t a = rng.below(W.n), b = rng.below(W.n);
        if (!W.marked) x %= 60;
        p = step(W, x < 45 ? Op{"merge", a, b} : x < 60 ? Op{"find", a, 0} : x < 76 ? Op{"mark", a, 0} : x < 90 ? Op{"unmark", a, 0} : Op{"isMarked", a, 0}, p);
      }
    }
  }
  vt::done();
  return 0;
}
