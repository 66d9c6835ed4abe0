// Records saving and loading of mesh bundles (connectivity, geometry and named properties), for specs/BundleTrace.tla (C34).
#include "geometrycentral/surface/rich_surface_mesh_data.h"
#include "geometrycentral/surface/simple_polygon_mesh.h"
#include "meshops.h"
#include "navlog.h"
#include "seeds.h"
#include <cmath>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace vt;
typedef std::vector<long> L;
typedef std::vector<std::string> S;
static std::string scratch;

static J full(SurfaceMesh& m) {
  J s = genState(m);
  s("c", genCounts(m));
  std::vector<L> vO, vI;
  for (Vertex v : m.vertices()) vO.push_back(ids(v.outgoingHalfedges())), vI.push_back(ids(v.incomingHalfedges()));
  s("vO", vO)("vI", vI);
  return s;
}
static void aboutJ(const J& d) {
  std::string s = d.str();
  about(s.substr(1, s.size() - 2));
}
static std::string msg(const std::exception& e) { return e.what()[0] ? std::string(e.what()).substr(0, 80) : "exception"; }
static Polys densify(Polys P) {
  std::map<size_t, size_t> id;
  for (auto& p : P)
    for (size_t i : p) id[i] = 0;
  size_t k = 0;
  for (auto& x : id) x.second = k++;
  for (auto& p : P)
    for (size_t& i : p) i = id[i];
  return P;
}
// values are written down exactly
static std::string val(double x) {
  char b[64];
  snprintf(b, 64, "%a", x);
  return b;
}
static std::string val(float x) { return val((double)x); }
static std::string val(int x) { return std::to_string(x); }
static std::string val(uint32_t x) { return std::to_string(x); }
static std::string val(int16_t x) { return std::to_string(x); }
static std::string val(uint16_t x) { return std::to_string(x); }
static std::string val(char x) { return std::to_string((int)x); }
static std::string val(unsigned char x) { return std::to_string((int)x); }
template <class T>
static T pickVal(Rng& R);
template <>
double pickVal<double>(Rng& R) {
  static const std::vector<double> T{0., -0., 1., -1., 2.5, 0.1, 1. / 3, 3.141592653589793, 1e-5, -1e-300, 5e-324, 2.2250738585072014e-308, 1e20,
                                     -1.7976931348623157e308, 123456789.123456789, 1.0000000000000002};
  return R.pick(T);
}
template <>
float pickVal<float>(Rng& R) {
  static const std::vector<float> T{0.f, -0.f, 1.f, -1.f, 2.5f, 0.1f, 3.1415927f, 1e-30f, 3.4e38f, 1.0000001f, -16777215.f};
  return R.pick(T);
}
template <>
int pickVal<int>(Rng& R) {
  static const std::vector<int> T{0, 1, -1, 7, 255, 256, -128, 65536, 2147483647, -2147483647 - 1};
  return R.pick(T);
}
template <>
uint32_t pickVal<uint32_t>(Rng& R) {
  static const std::vector<uint32_t> T{0, 1, 7, 255, 256, 65536, 4294967295u, 2147483648u};
  return R.pick(T);
}
template <>
int16_t pickVal<int16_t>(Rng& R) {
  return (int16_t)R.pick(std::vector<int>{0, 1, -1, 300, -32768, 32767});
}
template <>
uint16_t pickVal<uint16_t>(Rng& R) {
  return (uint16_t)R.pick(std::vector<int>{0, 1, 300, 65535, 32768});
}
template <>
char pickVal<char>(Rng& R) {
  return (char)R.pick(std::vector<int>{0, 1, -1, 10, 13, 32, 127, -128, 26});
}
template <>
unsigned char pickVal<unsigned char>(Rng& R) {
  return (unsigned char)R.pick(std::vector<int>{0, 1, 10, 13, 26, 32, 127, 128, 255});
}

struct Bundle {
  SurfaceMesh* mesh;
  std::unique_ptr<RichSurfaceMeshData> data;
  std::string bytes, file;
  J props; // last saved properties
};
static std::vector<J> saved;
static J propJ(const std::string& k, const std::string& n, const std::string& t, const S& v) {
  J j;
  j("k", k)("n", n)("t", t)("v", v);
  return j;
}
template <class E, class T>
static S addT(RichSurfaceMeshData& d, SurfaceMesh& m, const std::string& n, Rng& R, bool named) {
  MeshData<E, T> x(m, pickVal<T>(R));
  for (E e : iterateElements<E>(&m)) x[e] = pickVal<T>(R);
  if (R.chance(10)) {
    // values kept while elements come and go elsewhere are covered by MeshData itself; here a copied container is saved
    MeshData<E, T> y = x;
    x = y;
  }
  S v;
  for (E e : iterateElements<E>(&m)) v.push_back(val(x[e]));
  (void)named;
  d.addElementProperty<E, T>(n, x);
  return v;
}
template <class T>
static S addNamed(RichSurfaceMeshData& d, SurfaceMesh& m, const std::string& k, const std::string& n, Rng& R) {
#define VF_K(NAME, E, FN)                                                                                                                          \
  if (k == NAME) {                                                                                                                                 \
    if (R.chance(50)) return addT<E, T>(d, m, n, R, true);                                                                                         \
    MeshData<E, T> x(m);                                                                                                                           \
    S v;                                                                                                                                           \
    for (E e : iterateElements<E>(&m)) x[e] = pickVal<T>(R), v.push_back(val(x[e]));                                                               \
    d.FN<T>(n, x);                                                                                                                                 \
    return v;                                                                                                                                      \
  }
  VF_K("vertex", Vertex, addVertexProperty)
  VF_K("halfedge", Halfedge, addHalfedgeProperty)
  VF_K("corner", Corner, addCornerProperty)
  VF_K("edge", Edge, addEdgeProperty)
  VF_K("face", Face, addFaceProperty)
  VF_K("boundaryloop", BoundaryLoop, addBoundaryLoopProperty)
#undef VF_K
  abort();
}
template <class T>
static S getNamed(RichSurfaceMeshData& d, SurfaceMesh& m, const std::string& k, const std::string& n, bool named) {
  S v;
#define VF_K(NAME, E, FN)                                                                                                                          \
  if (k == NAME) {                                                                                                                                 \
    MeshData<E, T> x = named ? d.FN<T>(n) : d.getElementProperty<E, T>(n);                                                                         \
    for (E e : iterateElements<E>(&m)) v.push_back(val(x[e]));                                                                                     \
    return v;                                                                                                                                      \
  }
  VF_K("vertex", Vertex, getVertexProperty)
  VF_K("halfedge", Halfedge, getHalfedgeProperty)
  VF_K("corner", Corner, getCornerProperty)
  VF_K("edge", Edge, getEdgeProperty)
  VF_K("face", Face, getFaceProperty)
  VF_K("boundaryloop", BoundaryLoop, getBoundaryLoopProperty)
#undef VF_K
  abort();
}
static const S KINDS{"vertex", "halfedge", "corner", "edge", "face", "boundaryloop"};
static const S TYPES{"double", "float", "int", "uint", "short", "ushort", "char", "uchar"};
static S addAny(RichSurfaceMeshData& d, SurfaceMesh& m, const std::string& k, const std::string& n, const std::string& t, Rng& R) {
  if (t == "double") return addNamed<double>(d, m, k, n, R);
  if (t == "float") return addNamed<float>(d, m, k, n, R);
  if (t == "int") return addNamed<int>(d, m, k, n, R);
  if (t == "uint") return addNamed<uint32_t>(d, m, k, n, R);
  if (t == "short") return addNamed<int16_t>(d, m, k, n, R);
  if (t == "ushort") return addNamed<uint16_t>(d, m, k, n, R);
  if (t == "char") return addNamed<char>(d, m, k, n, R);
  return addNamed<unsigned char>(d, m, k, n, R);
}
static S getAny(RichSurfaceMeshData& d, SurfaceMesh& m, const std::string& k, const std::string& n, const std::string& t, bool named) {
  if (t == "double") return getNamed<double>(d, m, k, n, named);
  if (t == "float") return getNamed<float>(d, m, k, n, named);
  if (t == "int") return getNamed<int>(d, m, k, n, named);
  if (t == "uint") return getNamed<uint32_t>(d, m, k, n, named);
  if (t == "short") return getNamed<int16_t>(d, m, k, n, named);
  if (t == "ushort") return getNamed<uint16_t>(d, m, k, n, named);
  if (t == "char") return getNamed<char>(d, m, k, n, named);
  return getNamed<unsigned char>(d, m, k, n, named);
}

// ---------------------------------------------------------------- random edits
static const std::vector<std::pair<std::string, int>> W = {{"flip", 16}, {"insVE", 8}, {"split", 12}, {"conn", 8}, {"insV", 10}, {"tri", 5}, {"collapse", 12},
                                                           {"rmE", 8}, {"rmV", 8}, {"rmF", 10}, {"sep", 8}, {"switch", 4}, {"compress", 4}};
static const std::vector<std::pair<std::string, int>> WB = {{"flip", 5}, {"insVE", 12}, {"split", 14}, {"conn", 4}, {"rmF", 16}, {"sep", 16}, {"rmV", 10},
                                                            {"insV", 10}, {"tri", 2}};
static bool oneGeneralOp(SurfaceMesh& m, Rng& g, std::string& op, L& a, L& r, std::string& x) {
  std::vector<Face> F;
  std::vector<Edge> E;
  for (Face f : m.faces()) F.push_back(f);
  for (Edge e : m.edges()) E.push_back(e);
  if (F.empty()) return false;
  int roll = (int)g.below(100);
  if (roll < 20)
    op = "inv", a = {eid(g.pick(F))};
  else if (roll < 40 && F.size() < 8)
    op = "dup", a = {eid(g.pick(F))};
  else if (roll < 62)
    op = "flip", a = {eid(g.pick(E)), g.chance(60) ? 1 : 0};
  else if (roll < 76) {
    op = "sepE";
    Edge e = g.pick(E);
    for (int t = 0; t < 10 && e.degree() <= 2; t++) e = g.pick(E);
    std::vector<Halfedge> hs;
    for (Halfedge h : e.adjacentHalfedges()) hs.push_back(h);
    Halfedge p = g.pick(hs), q = g.pick(hs);
    for (int t = 0; t < 10 && q == p; t++) q = g.pick(hs);
    a = {eid(p), eid(q)};
  } else if (roll < 82)
    op = "sepEs";
  else if (roll < 88)
    op = "sepVs";
  else if (roll < 94)
    op = "orient";
  else
    op = "compress";
  try {
    if (op == "inv")
      m.invertOrientation(faById(m, a[0]));
    else if (op == "dup")
      r = {eid(m.duplicateFace(faById(m, a[0])))};
    else if (op == "flip")
      r = {m.flip(edById(m, a[0]), a[1] == 1) ? 1 : 0};
    else if (op == "sepE")
      r = {eid(m.separateToNewEdge(heById(m, a[0]), heById(m, a[1])))};
    else if (op == "sepEs")
      m.separateNonmanifoldEdges();
    else if (op == "sepVs") {
      VertexData<Vertex> par = m.separateNonmanifoldVertices();
      for (Vertex v : m.vertices()) r.push_back(par[v] == Vertex() ? 0 : eid(par[v]));
    } else if (op == "orient")
      m.greedilyOrientFaces();
    else
      m.compress();
  } catch (const std::exception& ex) {
    x = msg(ex);
  }
  return true;
}
static bool editEvent(std::unique_ptr<SurfaceMesh>& m, Rng& g, long& parent, size_t maxHe) {
  J j;
  ManifoldSurfaceMesh* mm = dynamic_cast<ManifoldSurfaceMesh*>(m.get());
  cpuLimit(5);
  if (m->nFaces() == 0) return false;
  if (mm) {
    Op op = randomOp(*mm, g, W, maxHe);
    J d;
    d("of", op.name)("a", op.a)("p", parent);
    aboutJ(d);
    OpResult R = applyOp(*mm, op);
    j("op", op.name)("p", parent)("a", op.a)("x", R.x)("r", R.r)("kind", "man")("keep", true)("s", full(*m));
  } else {
    if (m->nHalfedges() > maxHe) return false;
    std::string op, x;
    L a, r;
    J d;
    d("of", "general edit")("p", parent);
    aboutJ(d);
    if (!oneGeneralOp(*m, g, op, a, r, x)) return false;
    j("op", op)("p", parent)("a", a)("x", x)("r", r)("kind", "gen")("s", full(*m));
  }
  parent = emit(j);
  return true;
}
static std::unique_ptr<SurfaceMesh> sourceMesh(Rng& g, bool thoroughSizes) {
  auto seeds = seedMeshes();
  size_t lim = thoroughSizes ? 60 : 44;
  for (;;) {
    Polys P = g.pick(seeds).second;
    if (P.size() > 12) continue;
    if (g.chance(70)) {
      std::unique_ptr<ManifoldSurfaceMesh> m(new ManifoldSurfaceMesh(P));
      int n = g.chance(15) ? 0 : (int)g.below(18);
      bool b = g.chance(50);
      for (int k = 0; k < n && m->nFaces() > 0; k++) applyOp(*m, randomOp(*m, g, b ? WB : W, lim));
      if (m->nFaces() == 0 || m->nHalfedges() > 90) continue;
      if (g.chance(10)) return m->copy();
      return std::move(m);
    }
    // general: faces dropped, turned, doubled, vertices glued
    int n = (int)g.below(4);
    for (int k = 0; k < n && !P.empty(); k++) {
      size_t f = g.below(P.size());
      int c = (int)g.below(4);
      if (c == 0) std::reverse(P[f].begin(), P[f].end());
      if (c == 1 && P.size() < 9) P.push_back(P[f]);
      if (c == 2 && P.size() > 1) P.erase(P.begin() + (long)f);
      if (c == 3) {
        size_t a = P[f][0], b = P[g.below(P.size())][0];
        for (auto& p : P)
          for (size_t& i : p)
            if (i == a) i = b;
      }
    }
    P = densify(P);
    bool ok = P.size() <= 9;
    for (auto& p : P)
      for (size_t i = 0; i < p.size(); i++) ok = ok && p[i] != p[(i + 1) % p.size()];
    if (!ok) continue;
    try {
      std::unique_ptr<SurfaceMesh> m(new SurfaceMesh(P));
      int e = g.chance(25) ? 0 : (int)g.below(10);
      for (int k = 0; k < e && m->nHalfedges() < 50; k++) {
        std::string op, x;
        L a, r;
        oneGeneralOp(*m, g, op, a, r, x);
      }
      if (m->nHalfedges() > 80) continue;
      return m;
    } catch (const std::exception&) {
    }
  }
}

// ---------------------------------------------------------------- saving
struct Saved {
  std::string bytes, path;
  bool geo = false, len = false, conn = false;
  std::vector<std::array<std::string, 3>> props; // kind, name, type
};
static Saved saveEvent(SurfaceMesh& m, Rng& g, long& parent) {
  Saved R;
  std::vector<J> P;
  J d;
  d("of", "save")("p", parent);
  aboutJ(d);
  cpuLimit(5);
  std::string x;
  RichSurfaceMeshData data(m);
  R.conn = g.chance(88);
  R.geo = g.chance(60);
  R.len = g.chance(30);
  int np = (int)g.below(6), color = g.chance(30) ? 1 + (int)g.below(4) : 0;
  std::vector<int> order{0, 1, 2, 3};
  for (int k = 0; k < np; k++) order.push_back(4);
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
  int fmt = (int)g.below(4);
  static const S NAMES{"q", "w", "x", "val_1", "intrinsic_edge_lengths", "vertex_indices_", "gc_internal_q"};
  auto rec = [&](const std::string& k, const std::string& n, const std::string& t, const S& v) {
    P.push_back(propJ(k, n, t, v));
    R.props.push_back({{k, n, t}});
  };
  try {
    for (int o : order) {
      if (o == 0 && R.conn) data.addMeshConnectivity();
      if (o == 1 && R.geo) {
        VertexData<Vector3> pos(m);
        S c[3];
        for (Vertex v : m.vertices()) {
          for (int k = 0; k < 3; k++) {
            pos[v][k] = pickVal<double>(g);
            c[k].push_back(val(pos[v][k]));
          }
        }
        VertexPositionGeometry geom(m, pos);
        data.addGeometry(geom);
        rec("vertex", "x", "double", c[0]);
        rec("vertex", "y", "double", c[1]);
        rec("vertex", "z", "double", c[2]);
      }
      if (o == 2 && R.len) {
        EdgeData<double> l(m);
        S c;
        for (Edge e : m.edges()) l[e] = std::fabs(pickVal<double>(g)), c.push_back(val(l[e]));
        EdgeLengthGeometry geom(m, l);
        data.addIntrinsicGeometry(geom);
        rec("edge", "intrinsic_edge_lengths", "double", c);
      }
      if (o == 3 && color) {
        for (int k = 0; k < 3; k++) {
          static const char* nm[] = {"red", "green", "blue"};
          std::string t = color == 1 || (color == 4 && k < 2) ? "uchar" : color == 2 ? "float" : "double";
          rec("vertex", nm[k], t, addAny(data, m, "vertex", nm[k], t, g));
        }
      }
      if (o == 4) {
        std::string k = g.pick(KINDS), n = g.pick(NAMES), t = g.chance(40) ? "double" : g.pick(TYPES);
        rec(k, n, t, addAny(data, m, k, n, t, g));
      }
    }
    if (fmt < 3) data.outputFormat = fmt == 0 ? happly::DataFormat::ASCII : fmt == 1 ? happly::DataFormat::Binary : happly::DataFormat::BinaryBigEndian;
    if (g.chance(30)) {
      R.path = scratch + "/b" + std::to_string(g.below(1000)) + ".ply";
      data.write(R.path);
      std::ifstream in(R.path, std::ios::binary);
      std::stringstream ss;
      ss << in.rdbuf();
      R.bytes = ss.str();
    } else {
      std::stringstream ss;
      data.write(ss);
      R.bytes = ss.str();
    }
  } catch (const std::exception& ex) {
    x = msg(ex);
  }
  J j;
  j("op", "save")("p", parent)("props", P)("conn", R.conn)("fmt", fmt)("x", x)("s", full(m));
  parent = emit(j);
  return R;
}
// ---------------------------------------------------------------- loading
static void soupEvent(const Saved& B, long parent) {
  J d;
  d("of", "soup")("p", parent);
  aboutJ(d);
  std::string x;
  std::vector<L> polys;
  std::vector<S> pts;
  try {
    std::stringstream in(B.bytes);
    SimplePolygonMesh sm(in, "ply");
    for (auto& f : sm.polygons) {
      polys.push_back({});
      for (size_t i : f) polys.back().push_back(i > 100000 ? 100000 : (long)i + 1);
    }
    for (auto& p : sm.vertexCoordinates) pts.push_back({val(p.x), val(p.y), val(p.z)});
  } catch (const std::exception& ex) {
    x = msg(ex);
  }
  J j;
  j("op", "soup")("p", parent)("x", x)("polys", polys)("pts", pts);
  emit(j);
}
static void queries(RichSurfaceMeshData& data, SurfaceMesh& m, const Saved& B, Rng& g, long parent) {
  size_t n = B.props.size() + 2 + g.below(3);
  for (size_t q = 0; q < n; q++) {
    std::string k, nm, t, x;
    if (q < B.props.size()) {
      k = B.props[q][0];
      nm = B.props[q][1];
      t = B.props[q][2];
      int c = (int)g.below(12);
      if (c == 0) t = g.pick(TYPES);
      if (c == 1) k = g.pick(KINDS);
      if (c == 2) nm += "_";
    } else {
      k = g.pick(KINDS);
      nm = g.pick(S{"q", "w", "missing", "x"});
      t = g.pick(TYPES);
    }
    bool named = g.chance(50);
    J d;
    d("of", "get")("k", k)("n", nm)("t", t)("p", parent);
    aboutJ(d);
    S v;
    try {
      v = getAny(data, m, k, nm, t, named);
    } catch (const std::exception& ex) {
      x = msg(ex);
    }
    J j;
    j("op", "get")("p", parent)("k", k)("n", nm)("t", t)("x", x)("v", v);
    emit(j);
  }
  for (int w = 0; w < 3; w++) {
    static const char* what[] = {"geometry", "lengths", "colors"};
    if (g.chance(30)) continue;
    J d;
    d("of", what[w])("p", parent);
    aboutJ(d);
    std::string x;
    std::vector<S> v;
    bool onMesh = true;
    try {
      if (w == 0) {
        auto geo = data.getGeometry();
        onMesh = &geo->mesh == &m;
        for (Vertex u : m.vertices()) {
          Vector3 p = geo->vertexPositions[u];
          v.push_back({val(p.x), val(p.y), val(p.z)});
        }
      } else if (w == 1) {
        auto geo = data.getIntrinsicGeometry();
        onMesh = &geo->mesh == &m;
        for (Edge e : m.edges()) v.push_back({val(geo->edgeLengths[e])});
      } else {
        VertexData<Vector3> col = data.getVertexColors();
        for (Vertex u : m.vertices()) {
          v.push_back({});
          for (int k = 0; k < 3; k++) {
            // colours: as a number, and as a fraction of 255 where it is one exactly
            double c = col[u][k], r = std::floor(c * 255. + .5);
            v.back().push_back(val(c));
            v.back().push_back(r >= 0 && r <= 255 && r / 255.0 == c ? std::to_string((int)r) : "none");
          }
        }
      }
    } catch (const std::exception& ex) {
      x = msg(ex);
      v.clear();
    }
    J j;
    j("op", what[w])("p", parent)("x", x)("v", v)("on", onMesh);
    emit(j);
  }
}
static std::unique_ptr<SurfaceMesh> loadEvent(const Saved& B, SurfaceMesh& src, Rng& g, long savedAt, long& parent) {
  std::string how = g.chance(45) ? "any" : g.chance(50) ? "man" : g.chance(60) ? "same" : "other";
  bool file = !B.path.empty() && g.chance(60);
  J d;
  d("of", "load")("how", how)("p", savedAt);
  aboutJ(d);
  cpuLimit(5);
  std::string x;
  std::unique_ptr<SurfaceMesh> got, other;
  std::unique_ptr<RichSurfaceMeshData> data;
  SurfaceMesh* on = nullptr;
  if (how == "other") other = g.chance(30) ? src.copy() : sourceMesh(g, false);
  if (other && g.chance(30)) other->compress();
  try {
    std::stringstream in(B.bytes);
    if (how == "any") {
      if (file)
        std::tie(got, data) = RichSurfaceMeshData::readMeshAndData(B.path);
      else
        std::tie(got, data) = RichSurfaceMeshData::readMeshAndData(in);
    } else if (how == "man") {
      std::unique_ptr<ManifoldSurfaceMesh> mm;
      if (file)
        std::tie(mm, data) = RichSurfaceMeshData::readManifoldMeshAndData(B.path);
      else
        std::tie(mm, data) = RichSurfaceMeshData::readManifoldMeshAndData(in);
      got = std::move(mm);
    } else {
      on = how == "same" ? &src : other.get();
      if (file)
        data.reset(new RichSurfaceMeshData(*on, B.path));
      else
        data.reset(new RichSurfaceMeshData(*on, in));
    }
    if (got) on = got.get();
  } catch (const std::exception& ex) {
    x = msg(ex);
    got.reset();
    on = nullptr;
  }
  J j;
  j("op", "load")("p", savedAt)("how", how)("x", x)("live", on != nullptr);
  if (on)
    j("s", full(*on));
  else
    j("s", J());
  parent = emit(j);
  if (on) queries(*data, *on, B, g, parent);
  return got;
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  scratch = A.str("out", "/tmp/rich") + ".d";
  mkdir(scratch.c_str(), 0777);
  long budget = A.num("events", 1000), shard = A.num("shard", 0);
  for (long it = 0; nLines() < budget; it++) {
    Rng g((uint64_t)A.num("seed", 1) * 1000003 + shard * 7919 + it);
    about("\"of\":\"source\"");
    cpuLimit(10);
    std::unique_ptr<SurfaceMesh> m = sourceMesh(g, A.num("big", 0));
    J j0;
    j0("op", "init")("x", "")("s", full(*m));
    long at = emit(j0);
    for (int round = 0; round < 3; round++) {
      Saved B = saveEvent(*m, g, at);
      long savedAt = at;
      soupEvent(B, savedAt);
      std::unique_ptr<SurfaceMesh> next;
      long nextAt = 0;
      for (int k = 0; k < 2; k++) {
        long p = 0;
        std::unique_ptr<SurfaceMesh> got = loadEvent(B, *m, g, savedAt, p);
        if (got) next = std::move(got), nextAt = p;
      }
      if (next) {
        m = std::move(next);
        at = nextAt;
      }
      if (!B.path.empty()) unlink(B.path.c_str());
      int n = (int)g.below(6);
      bool ok = true;
      for (int k = 0; k < n && ok; k++) ok = editEvent(m, g, at, 90);
      if (!ok || m->nFaces() == 0) break;
    }
  }
  rmdir(scratch.c_str());
  vt::done();
  _exit(0);
}
