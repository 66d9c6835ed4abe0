// Records shortest edge paths and graph distances on small meshes with whole edge lengths, for specs/GraphTrace.tla.
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/mesh_graph_algorithms.h"
#include "meshlog.h"
#include "seeds.h"
using namespace vt;

static std::vector<std::pair<std::string, Polys>> generalSeeds() {
  std::vector<std::pair<std::string, Polys>> S;
  S.push_back({"threefins", {{0, 1, 2}, {1, 0, 3}, {0, 1, 4}}});
  S.push_back({"bowtie", {{0, 1, 2}, {0, 3, 4}}});
  S.push_back({"unoriented", {{0, 1, 2}, {0, 1, 3}, {1, 2, 4}, {2, 3, 0}}});
  S.push_back({"book", {{0, 1, 2, 3}, {0, 1, 4, 5}, {1, 0, 6, 7}, {1, 0, 8}}});
  S.push_back({"mobius", {{0, 1, 4, 3}, {1, 2, 5, 4}, {2, 3, 0, 5}}});
  S.push_back({"tri", {{0, 1, 2}}});
  S.push_back({"strip", {{0, 1, 2}, {2, 1, 3}, {2, 3, 4}}});
  return S;
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long shard = A.num("shard", 0), budget = A.num("events", 1000), seed = A.num("seed", 1);
  auto man = seedMeshes();
  man.push_back({"grid44", gridPolys(4, 4, false, false, 2)});
  man.push_back({"torus44", gridPolys(4, 4, true, true, 1)});
  auto gen = generalSeeds();
  for (long it = 0; nLines() < budget; it++) {
    Rng rng((uint64_t)seed * 1000003 + shard * 7919 + it);
    bool general = rng.chance(25);
    auto& S = general ? gen[rng.below(gen.size())] : man[rng.below(man.size())];
    std::unique_ptr<SurfaceMesh> m;
    if (general)
      m.reset(new SurfaceMesh(S.second));
    else {
      ManifoldSurfaceMesh* mm = new ManifoldSurfaceMesh(S.second);
      m.reset(mm);
      // irregular connectivity, multiple edges and holes in the numbering
      for (int k = (int)rng.below(8); k > 0; k--) {
        std::vector<Edge> es;
        for (Edge e : m->edges()) es.push_back(e);
        Edge e = rng.pick(es);
        if (rng.chance(60))
          mm->flip(e, false);
        else if (rng.chance(50))
          mm->insertVertexAlongEdge(e);
        else if (e.isBoundary() && mm->nFaces() > 1)
          mm->removeFaceAlongBoundary(e.halfedge().face());
      }
    }
    EdgeData<double> len(*m);
    int top = rng.pick(std::vector<int>{1, 2, 3, 10, 40});
    for (Edge e : m->edges()) len[e] = rng.range(rng.chance(10) ? 0 : 1, top);
    EdgeLengthGeometry geo(*m, len);
    J s;
    {
      std::vector<long> V, H, tl, tp, ed, E, ln, ea, eb;
      for (Vertex v : m->vertices()) V.push_back(eid(v));
      for (Halfedge h : m->halfedges()) H.push_back(eid(h)), put(tl, eid(h), eid(h.tailVertex())), put(tp, eid(h), eid(h.tipVertex())), put(ed, eid(h), eid(h.edge()));
      for (Edge e : m->edges()) {
        E.push_back(eid(e)), put(ln, eid(e), (long)len[e]);
        put(ea, eid(e), eid(e.firstVertex()));
        put(eb, eid(e), eid(e.secondVertex()));
      }
      s("V", V)("H", H)("E", E)("tl", tl)("tp", tp)("ed", ed)("len", ln)("ea", ea)("eb", eb);
    }
    about("");
    J j;
    j("op", "init")("src", S.first)("general", general)("g", s);
    long p = emit(j);
    std::vector<Vertex> vs;
    for (Vertex v : m->vertices()) vs.push_back(v);
    for (int k = 0; k < 10; k++) {
      cpuLimit(5);
      Vertex a = rng.pick(vs), b = rng.pick(vs);
      J d;
      d("of", "query")("a", eid(a))("b", eid(b))("p", p);
      std::string dd = d.str();
      about(dd.substr(1, dd.size() - 2));
      J e;
      if (rng.chance(65)) {
        std::vector<long> r;
        for (Halfedge h : shortestEdgePath(geo, a, b)) r.push_back(eid(h));
        e("op", "path")("p", p)("a", eid(a))("b", eid(b))("r", r);
      } else {
        long rad = rng.range(0, 3 * top);
        std::vector<std::vector<long>> r;
        for (auto& x : vertexDijkstraDistanceWithinRadius(geo, a, (double)rad)) r.push_back({eid(x.first), std::lround(x.second * 16)});
        e("op", "ball")("p", p)("a", eid(a))("rad", rad)("r", r);
      }
      emit(e);
    }
  }
  vt::done();
  return 0;
}
