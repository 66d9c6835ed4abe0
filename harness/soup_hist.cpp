// Records clean-up histories of polygon soups, for specs/SoupTrace.tla (C23).
#include "geometrycentral/surface/simple_polygon_mesh.h"
#include "seeds.h"
#include "vt.h"
#include <cmath>
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace vt;
typedef std::vector<long> L;
static const size_t BAD = 999; // an index beyond any vertex list used here
static long small(double x) { return x >= -1e6 && x <= 1e6 && x == std::floor(x) ? (long)x : 7777777; }
static std::string state(const SimplePolygonMesh& m) {
  J j;
  std::vector<L> pts;
  for (auto& p : m.vertexCoordinates) pts.push_back({small(p.x), small(p.y), small(p.z)});
  std::vector<std::vector<L>> uv;
  for (auto& c : m.paramCoordinates) {
    uv.push_back({});
    for (auto& x : c) uv.back().push_back({small(x.x), small(x.y)});
  }
  std::vector<L> polys;
  for (auto& f : m.polygons) {
    polys.push_back({});
    for (size_t i : f) polys.back().push_back(i > 100000 ? 100000 : (long)i);
  }
  j("pts", pts)("polys", polys)("uv", uv);
  return j.str();
}
struct Raw {
  std::string s;
  std::string str() const { return s; }
};
static void rawKey(J& j, const char* k, const std::string& v) {
  j.key(k);
  j.s += v;
}
static bool inRange(const SimplePolygonMesh& m) {
  for (auto& f : m.polygons)
    for (size_t i : f)
      if (i >= m.nVertices()) return false;
  return true;
}
static bool noRepeats(const SimplePolygonMesh& m) {
  for (auto& f : m.polygons)
    if (std::set<size_t>(f.begin(), f.end()).size() != f.size()) return false;
  return true;
}
static bool onlyTriangles(const SimplePolygonMesh& m) {
  for (auto& f : m.polygons)
    if (f.size() != 3) return false;
  return true;
}
static void addUV(Rng& R, SimplePolygonMesh& m) {
  m.paramCoordinates.clear();
  for (auto& f : m.polygons) {
    m.paramCoordinates.push_back({});
    for (size_t k = 0; k < f.size(); k++) m.paramCoordinates.back().push_back(Vector2{(double)R.range(0, 99), (double)R.range(0, 99)});
  }
}
static SimplePolygonMesh randomSoup(Rng& R) {
  SimplePolygonMesh m;
  int nv = R.chance(15) ? R.range(9, 14) : R.range(3, 9);
  int span = R.range(1, 2);
  for (int i = 0; i < nv; i++) {
    Vector3 p{(double)R.range(-span, span), (double)R.range(0, span), (double)R.range(0, 1)};
    if (p.x == 0 && R.chance(30)) p.x = -0.;
    if (p.y == 0 && R.chance(30)) p.y = -0.;
    m.vertexCoordinates.push_back(p);
  }
  int nf = R.range(0, 7);
  int style = R.range(0, 2);
  for (int i = 0; i < nf; i++) {
    std::vector<size_t> f;
    if (m.nFaces() && R.chance(20)) { // a rotated or reversed copy
      f = R.pick(m.polygons);
      if (!f.empty()) std::rotate(f.begin(), f.begin() + R.below(f.size()), f.end());
      if (R.chance(50)) std::reverse(f.begin(), f.end());
      if (f.size() > 2 && R.chance(30)) std::swap(f[0], f[R.below(f.size())]);
    } else {
      int D = style == 0 ? 3 : R.chance(6) ? R.range(0, 2) : R.chance(nv > 8 ? 40 : 8) ? R.range(7, nv > 8 ? 12 : 9) : R.range(3, 5);
      std::vector<size_t> all;
      for (int v = 0; v < nv; v++) all.push_back(v);
      for (int k = 0; k < D; k++) {
        if (all.empty() || (style == 2 && R.chance(D > 7 ? 3 : 8)))
          f.push_back(R.below(nv)); // maybe repeated
        else {
          size_t w = R.below(all.size());
          f.push_back(all[w]);
          all.erase(all.begin() + w);
        }
      }
      if (style == 2 && !f.empty() && R.chance(f.size() > 7 ? 35 : 5)) f[R.below(f.size())] = R.chance(50) ? nv : BAD;
    }
    m.polygons.push_back(f);
  }
  return m;
}
// pieces of surfaces with randomly reversed faces
static SimplePolygonMesh randomPatch(Rng& R) {
  static auto S = seedMeshes();
  SimplePolygonMesh m;
  if (R.chance(25)) { // twisted or untwisted band
    int n = R.range(3, 6);
    bool twist = R.chance(60);
    for (int i = 0; i < n; i++) {
      size_t a = 2 * i, b = 2 * i + 1, c = 2 * ((i + 1) % n), d = c + 1;
      if (i == n - 1 && twist) std::swap(c, d);
      m.polygons.push_back({a, b, d, c});
    }
  } else
    do {
      m.polygons.clear();
      for (auto& q : R.pick(S).second) m.polygons.push_back(std::vector<size_t>(q.begin(), q.end()));
    } while (m.polygons.size() > 16);
  size_t nv = 0;
  for (auto& f : m.polygons)
    for (size_t i : f) nv = std::max(nv, i + 1);
  for (size_t i = 0; i < nv; i++) m.vertexCoordinates.push_back(Vector3{(double)R.range(-9, 9), (double)R.range(-9, 9), (double)R.range(-9, 9)});
  for (size_t i = 0; i < m.nFaces(); i++)
    if (R.chance(10)) m.polygons.erase(m.polygons.begin() + i);
  if (R.chance(30) && nv > 2) { // an extra face, perhaps a third one along some edges
    std::vector<size_t> f{R.below(nv), R.below(nv), R.below(nv)};
    if (f[0] != f[1] && f[1] != f[2] && f[0] != f[2]) m.polygons.push_back(f);
  }
  for (auto& f : m.polygons) {
    if (R.chance(50)) std::reverse(f.begin(), f.end());
    std::rotate(f.begin(), f.begin() + R.below(f.size()), f.end());
  }
  for (size_t i = m.nFaces(); i > 1; i--) std::swap(m.polygons[i - 1], m.polygons[R.below(i)]);
  return m;
}
// closed convex solids far from one another
static SimplePolygonMesh solids(Rng& R) {
  SimplePolygonMesh m;
  int n = R.range(1, 3);
  for (int k = 0; k < n; k++) {
    size_t o = m.nVertices();
    std::vector<std::vector<size_t>> F;
    std::vector<Vector3> P;
    switch (R.below(3)) {
    case 0:
      F = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
      P = {{0, 0, 0}, {(double)R.range(2, 5), 0, 0}, {0, (double)R.range(2, 5), 0}, {0, 0, (double)R.range(2, 5)}};
      break;
    case 1: {
      double a = R.range(2, 4), b = R.range(2, 4), c = R.range(2, 4);
      F = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
      P = {{a, 0, 0}, {-a, 0, 0}, {0, b, 0}, {0, -b, 0}, {0, 0, c}, {0, 0, -c}};
      break;
    }
    default: {
      double a = R.range(2, 4), b = R.range(2, 4), c = R.range(2, 4);
      for (int i = 0; i < 8; i++) P.push_back(Vector3{i & 1 ? a : 0, i & 2 ? b : 0, i & 4 ? c : 0});
      for (auto& q : std::vector<std::vector<size_t>>{{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}})
        F.push_back({q[0], q[1], q[2]}), F.push_back({q[0], q[2], q[3]});
    }
    }
    for (auto& p : P) m.vertexCoordinates.push_back(p + Vector3{60. * k, 0, 0});
    for (auto& f : F) {
      for (auto& i : f) i += o;
      if (R.chance(50)) std::reverse(f.begin(), f.end());
      m.polygons.push_back(f);
    }
  }
  for (size_t i = m.nFaces(); i > 1; i--) std::swap(m.polygons[i - 1], m.polygons[R.below(i)]);
  return m;
}
int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long iters = A.num("iters", 50);
  Rng R((uint64_t)A.num("seed", 1) * 15485863 + (uint64_t)A.num("shard", 0));
  for (long it = 0; it < iters; it++) {
    int kind = R.range(0, 9);
    SimplePolygonMesh m = kind < 5 ? randomSoup(R) : kind < 8 ? randomPatch(R) : solids(R);
    if (R.chance(60)) addUV(R, m);
    long par = emit(J()("op", "init"));
    int steps = R.range(1, 5);
    for (int s = 0; s < steps; s++) {
      std::vector<std::string> ops{"bad", "dupv", "tri"};
      if (inRange(m)) ops.insert(ops.end(), {"merge", "merge", "unused", "unused"});
      if (noRepeats(m)) {
        ops.push_back("dupf"), ops.push_back("dupf");
        bool polygons = true;
        for (auto& f : m.polygons) polygons = polygons && f.size() > 2;
        if (m.nFaces() && polygons) ops.insert(ops.end(), {"orient", "orient"});
        if (inRange(m) && kind >= 8 && s == 0) ops = {"out"};
        else if (!onlyTriangles(m)) ops.push_back("out");
      }
      ops.push_back("union");
      if (R.chance(5)) ops = {"clear"};
      std::string op = R.pick(ops);
      J d;
      d("of", op)("p", par);
      rawKey(d, "pre", state(m));
      {
        std::string t = d.str();
        about(t.substr(1, t.size() - 2));
      }
      cpuLimit(5);
      J e;
      e("op", op)("p", par);
      rawKey(e, "pre", state(m));
      std::string x;
      L map;
      std::vector<std::string> parts;
      try {
        if (op == "merge") m.mergeIdenticalVertices();
        else if (op == "unused") {
          for (size_t i : m.stripUnusedVertices()) map.push_back(i == INVALID_IND ? -1 : (long)i);
        } else if (op == "bad") m.stripInvalidFaces();
        else if (op == "dupv") m.stripFacesWithDuplicateVertices();
        else if (op == "dupf") m.stripDuplicateFaces();
        else if (op == "tri") m.triangulate();
        else if (op == "orient") m.consistentlyOrientFaces(false);
        else if (op == "out") m.consistentlyOrientFaces(true);
        else if (op == "clear") m.clear();
        else {
          std::vector<SimplePolygonMesh> ms;
          int n = R.range(1, 3);
          size_t at = R.below(n);
          bool uv = R.chance(70);
          for (int i = 0; i < n; i++) {
            ms.push_back((size_t)i == at ? m : randomSoup(R));
            if ((size_t)i != at && uv) addUV(R, ms.back());
            if (ms.back().nFaces() > 6) ms.back().polygons.resize(6), (void)(ms.back().hasParameterization() ? ms.back().paramCoordinates.resize(6) : void());
          }
          std::string all;
          for (auto& q : ms) all += (all.empty() ? "" : ",") + state(q);
          rawKey(e, "parts", "[" + all + "]");
          m = *unionMeshes(ms);
        }
      } catch (std::exception&) {
        x = "x";
      }
      e("x", x)("map", map);
      rawKey(e, "post", state(m));
      emit(e);
      if (m.nFaces() > 24 || m.nVertices() > 40) break;
    }
  }
  vt::done();
  _exit(0);
}
