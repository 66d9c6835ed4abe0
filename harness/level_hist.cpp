// Records level-set extractions of whole-number vertex functions, for specs/LevelTrace.tla (C31).
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/marching_triangles.h"
#include "trimesh.h"
using namespace vt;
typedef std::vector<long> L;
static L enc(const SurfacePoint& p) {
  if (p.type == SurfacePointType::Vertex) return {0, (long)p.vertex.getIndex() + 1};
  if (p.type == SurfacePointType::Edge) {
    double t = p.tEdge * 100000;
    long k = t >= -1e6 && t <= 1e6 ? (long)std::floor(t + 1e-4) : 999999;
    if (p.tEdge > 0 && k == 0) k = 1;
    if (p.tEdge < 1 && k == 100000) k = 99999;
    return {1, (long)p.edge.getIndex() + 1, k};
  }
  return {2, (long)p.face.getIndex() + 1};
}
int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long shard = A.num("shard", 0), iters = A.num("iters", 50), per = A.num("per", 30);
  Rng R((uint64_t)A.num("seed", 1) * 104729 + (uint64_t)shard);
  for (long it = 0; it < iters; it++) {
    auto m = randomTriMesh(R, R.range(0, 12));
    EdgeData<double> len(*m);
    for (Edge e : m->edges()) len[e] = R.range(5, 9);
    EdgeLengthGeometry g(*m, len);
    J j;
    j("op", "init");
    putTriMesh(j, *m);
    long par = emit(j);
    for (long k = 0; k < per; k++) {
      int span = R.range(1, 3);
      VertexData<double> u(*m);
      L uu;
      for (Vertex v : m->vertices()) {
        long x = R.range(-span, span);
        u[v] = (double)x, uu.push_back(2 * x);
      }
      // a level between the values, half of the time one of them
      long lv = R.chance(50) ? 2 * R.range(-span, span) : 2 * R.range(-span, span) + 1;
      J d;
      d("of", "level")("p", par)("u", uu)("lv", lv);
      std::string s = d.str();
      about(s.substr(1, s.size() - 2));
      cpuLimit(5);
      std::vector<std::vector<L>> C;
      std::string x;
      for (auto& c : lv == 0 && R.chance(50) ? marchingTriangles(g, u) : marchingTriangles(g, u, lv / 2.)) {
        C.push_back({});
        for (auto& p : c) C.back().push_back(enc(p));
      }
      emit(J()("op", "level")("p", par)("u", uu)("lv", lv)("C", C));
    }
  }
  vt::done();
  _exit(0);
}
