// Records mesh construction (C05), navigation (C10) and histories of general meshes (C11), for specs/GeneralTrace.tla.
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "meshops.h"
#include "navlog.h"
#include "seeds.h"
using namespace vt;

static bool nav = false;

static J full(SurfaceMesh& m, Rng& g) {
  J s = genState(m);
  s("c", genCounts(m));
  if (nav)
    s("n", navState(m, g));
  else {
    std::vector<std::vector<long>> vO, vI;
    for (Vertex v : m.vertices()) vO.push_back(ids(v.outgoingHalfedges())), vI.push_back(ids(v.incomingHalfedges()));
    s("vO", vO)("vI", vI);
  }
  return s;
}
static void aboutJ(const J& d) {
  std::string s = d.str();
  about(s.substr(1, s.size() - 2));
}
static std::vector<std::vector<long>> toL(const Polys& P) {
  std::vector<std::vector<long>> r;
  for (auto& p : P) {
    r.push_back({});
    for (size_t i : p) r.back().push_back((long)i + 1);
  }
  return r;
}
static Polys densify(Polys P) {
  std::map<size_t, size_t> id;
  std::set<size_t> used;
  for (auto& p : P)
    for (size_t i : p) used.insert(i);
  for (size_t i : used) {
    size_t k = id.size();
    id[i] = k;
  }
  for (auto& p : P)
    for (size_t& i : p) i = id[i];
  return P;
}

// ---------------------------------------------------------------- construction
static void buildEvent(const Polys& P, const Glue& G, const std::string& how, Rng& g) {
  J d;
  d("of", "build")("how", how)("polys", toL(P));
  aboutJ(d);
  cpuLimit(5);
  J j;
  std::vector<std::vector<std::vector<long>>> gl;
  for (auto& f : G) {
    gl.push_back({});
    for (auto& t : f) gl.back().push_back({id(std::get<0>(t)), id(std::get<1>(t))});
  }
  j("op", "init")("how", how)("polys", toL(P))("glue", gl);
  std::unique_ptr<SurfaceMesh> m;
  std::string x;
  bool data = true;
  size_t nV = 0;
  for (auto& p : P)
    for (size_t i : p) nV = std::max(nV, i + 1);
  std::vector<Vector3> pos;
  for (size_t i = 0; i < nV; i++) pos.push_back(Vector3{(double)i, 2. * i, 3. * i});
  std::vector<std::vector<Vector2>> uv;
  for (size_t f = 0; f < P.size(); f++) {
    uv.push_back({});
    for (size_t k = 0; k < P[f].size(); k++) uv.back().push_back(Vector2{(double)f, (double)k});
  }
  try {
    std::unique_ptr<VertexPositionGeometry> geo;
    std::unique_ptr<CornerData<Vector2>> cuv;
    if (how == "man")
      m.reset(new ManifoldSurfaceMesh(P));
    else if (how == "gen")
      m.reset(new SurfaceMesh(P));
    else if (how == "glue")
      m.reset(new ManifoldSurfaceMesh(P, G));
    else if (how == "manmat" || how == "genmat") {
      Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic> F(P.size(), P[0].size());
      Eigen::MatrixXd V(nV, 3);
      for (size_t i = 0; i < nV; i++)
        for (int c = 0; c < 3; c++) V(i, c) = pos[i][c];
      for (size_t f = 0; f < P.size(); f++)
        for (size_t k = 0; k < P[f].size(); k++) F(f, k) = (int)P[f][k];
      if (how == "manmat")
        std::tie(m, geo) = makeManifoldSurfaceMeshAndGeometry(V, F);
      else
        std::tie(m, geo) = makeSurfaceMeshAndGeometry(V, F);
    } else if (how == "manfac") {
      std::unique_ptr<ManifoldSurfaceMesh> mm;
      std::tie(mm, geo) = makeManifoldSurfaceMeshAndGeometry(P, pos);
      m = std::move(mm);
    } else if (how == "genfac")
      std::tie(m, geo) = makeSurfaceMeshAndGeometry(P, pos);
    else if (how == "manuv") {
      std::unique_ptr<ManifoldSurfaceMesh> mm;
      std::tie(mm, geo, cuv) = makeParameterizedManifoldSurfaceMeshAndGeometry(P, pos, uv);
      m = std::move(mm);
    } else if (how == "genuv")
      std::tie(m, geo, cuv) = makeParameterizedSurfaceMeshAndGeometry(P, pos, uv);
    else if (how == "glueuv") {
      std::unique_ptr<ManifoldSurfaceMesh> mm;
      std::tie(mm, geo, cuv) = makeManifoldSurfaceMeshAndGeometry(P, G, pos, uv);
      m = std::move(mm);
    }
    if (geo)
      for (Vertex v : m->vertices()) data = data && geo->vertexPositions[v] == pos[v.getIndex()];
    if (cuv)
      for (Face f : m->faces()) {
        size_t k = 0;
        for (Corner c : f.adjacentCorners()) data = data && k < uv[f.getIndex()].size() && (*cuv)[c] == uv[f.getIndex()][k++];
      }
  } catch (const std::exception& ex) {
    x = ex.what()[0] ? std::string(ex.what()).substr(0, 80) : "exception";
    m.reset();
  }
  j("x", x)("data", data)("live", (bool)m);
  if (m) {
    // exported polygons describe the input again
    std::vector<std::vector<long>> out;
    for (auto& p : m->getFaceVertexList()) {
      out.push_back({});
      for (size_t i : p) out.back().push_back((long)i + 1);
    }
    j("out", out)("s", full(*m, g));
  } else
    j("out", std::vector<std::vector<long>>())("s", J());
  emit(j);
}
static const char* MAN[] = {"man", "manmat", "manfac", "manuv"};
static const char* GEN[] = {"gen", "genmat", "genfac", "genuv"};
static bool uniform(const Polys& P) {
  for (auto& p : P)
    if (p.size() != P[0].size()) return false;
  return !P.empty() && !P[0].empty();
}
static void buildAll(const Polys& P, Rng& g) {
  std::string a = g.chance(50) ? "man" : MAN[g.below(4)], b = g.chance(50) ? "gen" : GEN[g.below(4)];
  if (!uniform(P)) {
    if (a == "manmat") a = "man";
    if (b == "genmat") b = "gen";
  }
  buildEvent(P, {}, a, g);
  if (g.chance(50)) buildEvent(P, {}, b, g);
}
static Polys mutate(Polys P, Rng& g) {
  size_t nV = 0;
  for (auto& p : P)
    for (size_t i : p) nV = std::max(nV, i + 1);
  int n = (int)g.below(3);
  for (int k = 0; k < n && !P.empty(); k++) {
    size_t f = g.below(P.size());
    switch (g.below(8)) {
    case 0:
      std::reverse(P[f].begin(), P[f].end());
      break;
    case 1:
      P.push_back(P[f]);
      break;
    case 2:
    case 3:
      if (P.size() > 1) P.erase(P.begin() + f);
      break;
    case 4: { // identify two vertices
      size_t a = g.below(nV), b = g.below(nV);
      for (auto& p : P)
        for (size_t& i : p)
          if (i == a) i = b;
      break;
    }
    case 5:
      std::rotate(P[f].begin(), P[f].begin() + 1, P[f].end());
      break;
    case 6: // split a vertex of one face off
      P[f][g.below(P[f].size())] = nV++;
      break;
    case 7: // unused vertex or degenerate face
      if (g.chance(50))
        P[f][g.below(P[f].size())] = nV + 1, nV += 2;
      else if (P[f].size() > 2)
        P[f].pop_back();
      break;
    }
  }
  if (g.chance(92)) P = densify(P);
  if (g.chance(30)) { // relabel
    size_t m = 0;
    for (auto& p : P)
      for (size_t i : p) m = std::max(m, i + 1);
    std::vector<size_t> perm(m);
    for (size_t i = 0; i < m; i++) perm[i] = i;
    for (size_t i = m; i > 1; i--) std::swap(perm[i - 1], perm[g.below(i)]);
    for (auto& p : P)
      for (size_t& i : p) i = perm[i];
    for (size_t i = P.size(); i > 1; i--) std::swap(P[i - 1], P[g.below(i)]);
  }
  return P;
}
// polygons and gluing of a manifold mesh as it is now
static void glueOf(ManifoldSurfaceMesh& m, Polys& P, Glue& G) {
  P = m.getFaceVertexList();
  FaceData<size_t> fi = m.getFaceIndices();
  HalfedgeData<size_t> pos(m);
  for (Face f : m.faces()) {
    size_t k = 0;
    for (Halfedge h : f.adjacentHalfedges()) pos[h] = k++;
  }
  G.clear();
  for (Face f : m.faces()) {
    G.push_back({});
    for (Halfedge h : f.adjacentHalfedges()) {
      if (h.twin().isInterior())
        G.back().push_back(std::make_tuple(fi[h.twin().face()], pos[h.twin()]));
      else
        G.back().push_back(std::make_tuple(INVALID_IND, INVALID_IND));
    }
  }
}
static Polys randomSoup(Rng& g, size_t maxV, size_t maxF, int pctRepeat) {
  size_t nv = 3 + g.below(maxV - 2), nf = 1 + g.below(maxF);
  Polys P;
  for (size_t f = 0; f < nf; f++) {
    size_t d = 3 + (g.chance(30) ? g.below(3) : 0);
    std::vector<size_t> p;
    bool rep = g.chance(pctRepeat);
    if (!rep) d = std::min(d, nv);
    while (p.size() < d) {
      size_t i = g.below(nv);
      bool ok = true;
      if (!rep)
        for (size_t x : p) ok = ok && x != i;
      else if (g.chance(80))
        ok = (p.empty() || p.back() != i) && !(p.size() + 1 == d && p[0] == i);
      if (ok) p.push_back(i);
    }
    P.push_back(p);
  }
  return densify(P);
}
static void modeBuild(const Args& A) {
  long budget = A.num("events", 1000), shard = A.num("shard", 0), shards = A.num("shards", 1);
  Rng g((uint64_t)A.num("seed", 1) * 7741 + shard);
  // exhaustive: all lists of up to three triangles over four vertices
  Polys T;
  for (size_t a = 0; a < 4; a++)
    for (size_t b = a + 1; b < 4; b++)
      for (size_t c = b + 1; c < 4; c++) T.push_back({a, b, c}), T.push_back({a, c, b});
  long job = 0;
  for (size_t n = 1; n <= 3; n++) {
    size_t tot = 1;
    for (size_t k = 0; k < n; k++) tot *= T.size();
    for (size_t c = 0; c < tot; c++) {
      if (job++ % shards != shard) continue;
      if (n == 3 && !g.chance((int)A.num("pct", 60))) continue;
      Polys P;
      size_t x = c;
      for (size_t k = 0; k < n; k++) P.push_back(T[x % T.size()]), x /= T.size();
      buildAll(densify(P), g);
    }
  }
  auto seeds = seedMeshes();
  std::vector<std::pair<std::string, int>> w = {{"flip", 25}, {"split", 4}, {"insV", 5}, {"tri", 6}, {"rmE", 8}, {"rmF", 6}, {"conn", 5},
                                                {"compress", 3}, {"insVE", 4}};
  while (nLines() < budget) {
    int roll = (int)g.below(10);
    if (roll < 3) {
      Polys P;
      for (int t = 0; t < 20; t++) { // prefer lists that stay small
        P = seeds[g.below(seeds.size())].second;
        if (P.size() <= 10) break;
      }
      buildAll(mutate(P, g), g);
    } else if (roll < 5) {
      buildAll(randomSoup(g, 6, 5, 15), g);
    } else {
      // gluing tables: of a reachable mesh, with some sides opened, faces reordered, and vertices split or merged
      auto& S = seeds[g.below(seeds.size())];
      if (S.second.size() > 12) continue;
      ManifoldSurfaceMesh m(S.second);
      int n = (int)g.below(12);
      for (int k = 0; k < n && m.nHalfedges() < 40; k++) applyOp(m, randomOp(m, g, w, 40));
      if (m.nFaces() == 0) continue;
      Polys P;
      Glue G;
      glueOf(m, P, G);
      int o = (int)g.below(4);
      for (int k = 0; k < o; k++) {
        size_t f = g.below(G.size()), s = g.below(G[f].size());
        auto t = G[f][s];
        if (std::get<0>(t) == INVALID_IND) continue;
        G[f][s] = G[std::get<0>(t)][std::get<1>(t)] = std::make_tuple(INVALID_IND, INVALID_IND);
      }
      if (g.chance(20)) { // give two vertices the same name
        size_t a = g.below(m.nVertices()), b = g.below(m.nVertices());
        for (auto& p : P)
          for (size_t& i : p)
            if (i == a) i = b;
        if (g.chance(85)) P = densify(P);
      }
      if (g.chance(6)) G.pop_back();
      buildEvent(P, G, g.chance(75) || G.size() != P.size() ? "glue" : "glueuv", g);
    }
  }
}

// ---------------------------------------------------------------- histories
static void modeGen(const Args& A) {
  long budget = A.num("events", 1000), shard = A.num("shard", 0), len = A.num("len", 12);
  for (long it = 0; nLines() < budget; it++) {
    Rng g((uint64_t)A.num("seed", 1) * 1000003 + shard * 7919 + it);
    Polys P = g.chance(50) ? randomSoup(g, 6, 6, A.num("repeat", 12)) : Polys();
    if (P.empty()) {
      auto seeds = seedMeshes();
      for (int t = 0; t < 30; t++) {
        P = seeds[g.below(seeds.size())].second;
        if (P.size() <= 8) break;
      }
      P = densify(mutate(P, g));
      bool ok = true;
      for (auto& p : P) ok = ok && p.size() >= 3;
      if (!ok) continue;
    }
    std::unique_ptr<SurfaceMesh> m(new SurfaceMesh(P));
    J j0;
    j0("op", "init")("how", "start")("polys", toL(P))("x", "")("s", full(*m, g));
    long parent = emit(j0);
    for (long k = 0; k < len; k++) {
      std::vector<long> a, r;
      std::string op;
      size_t nf = m->nFaces(), ne = m->nEdges();
      std::vector<Face> F;
      std::vector<Edge> E;
      for (Face f : m->faces()) F.push_back(f);
      for (Edge e : m->edges()) E.push_back(e);
      int roll = (int)g.below(100);
      if (roll < 20)
        op = "inv", a = {eid(g.pick(F))};
      else if (roll < 34 && nf < 9)
        op = "dup", a = {eid(g.pick(F))};
      else if (roll < 58)
        op = "flip", a = {eid(g.pick(E)), g.chance(55) ? 1 : 0};
      else if (roll < 70) {
        op = "sepE";
        Edge e = g.pick(E);
        for (int t = 0; t < 10 && e.degree() <= 2; t++) e = g.pick(E);
        std::vector<Halfedge> hs;
        for (Halfedge h : e.adjacentHalfedges()) hs.push_back(h);
        Halfedge x = g.pick(hs), y = g.pick(hs);
        for (int t = 0; t < 10 && y == x; t++) y = g.pick(hs);
        if (g.chance(5)) y = g.pick(E).halfedge();
        a = {eid(x), eid(y)};
      } else if (roll < 75)
        op = "sepEs";
      else if (roll < 81)
        op = "sepVs";
      else if (roll < 87)
        op = "orient";
      else if (roll < 91)
        op = "compress";
      else if (roll < 97)
        op = "toman";
      else
        op = "copy";
      (void)ne;
      J d;
      d("of", op)("a", a)("p", parent);
      aboutJ(d);
      cpuLimit(5);
      std::string x;
      std::unique_ptr<ManifoldSurfaceMesh> mm;
      try {
        if (op == "inv")
          m->invertOrientation(faById(*m, a[0]));
        else if (op == "dup")
          r = {eid(m->duplicateFace(faById(*m, a[0])))};
        else if (op == "flip")
          r = {m->flip(edById(*m, a[0]), a[1] == 1) ? 1 : 0};
        else if (op == "sepE")
          r = {eid(m->separateToNewEdge(heById(*m, a[0]), heById(*m, a[1])))};
        else if (op == "sepEs")
          m->separateNonmanifoldEdges();
        else if (op == "sepVs") {
          VertexData<Vertex> par = m->separateNonmanifoldVertices();
          for (Vertex v : m->vertices()) r.push_back(par[v] == Vertex() ? 0 : eid(par[v]));
        } else if (op == "orient")
          m->greedilyOrientFaces();
        else if (op == "compress")
          m->compress();
        else if (op == "toman")
          mm = m->toManifoldMesh();
        else if (op == "copy")
          m = g.chance(50) ? m->copy() : m->copyToSurfaceMesh();
      } catch (const std::exception& ex) {
        x = ex.what()[0] ? std::string(ex.what()).substr(0, 80) : "exception";
      }
      J j;
      j("op", op)("p", parent)("a", a)("x", x)("r", r)("s", full(*m, g));
      if (op == "toman") {
        j("live", (bool)mm);
        if (mm)
          j("t", full(*mm, g));
        else
          j("t", J());
      }
      parent = emit(j);
      if (m->nHalfedges() > 60) break;
    }
  }
}
static void modeMan(const Args& A) {
  long budget = A.num("events", 1000), shard = A.num("shard", 0), len = A.num("len", 16);
  auto seeds = seedMeshes();
  std::vector<std::pair<std::string, int>> w = {{"flip", 20}, {"insVE", 8}, {"split", 10}, {"conn", 9}, {"insV", 8}, {"tri", 6},
                                                {"collapse", 14}, {"rmE", 8}, {"rmV", 6}, {"rmF", 8}, {"sep", 8}, {"switch", 5},
                                                {"compress", 4}};
  for (long it = 0; nLines() < budget; it++) {
    Rng g((uint64_t)A.num("seed", 1) * 1000003 + shard * 7919 + it);
    auto& S = seeds[g.below(seeds.size())];
    ManifoldSurfaceMesh m(S.second);
    J j0;
    j0("op", "init")("how", "start")("polys", toL(S.second))("x", "")("s", full(m, g));
    long parent = emit(j0);
    for (long k = 0; k < len; k++) {
      if (m.nFaces() == 0) break;
      Op op = randomOp(m, g, w, 30 + g.below(30));
      J d;
      d("of", op.name)("a", op.a)("p", parent);
      aboutJ(d);
      cpuLimit(5);
      OpResult R = applyOp(m, op);
      J j;
      j("op", "man")("aop", op.name)("p", parent)("a", op.a)("x", "")("s", full(m, g));
      parent = emit(j);
    }
  }
}
int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  nav = A.num("nav", 0);
  std::string mode = A.str("mode", "gen");
  if (mode == "build")
    modeBuild(A);
  else if (mode == "gen")
    modeGen(A);
  else
    modeMan(A);
  vt::done();
  return 0;
}
