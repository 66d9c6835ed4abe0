// Records triangle-triangle and mesh-mesh intersection queries on whole-number coordinates, for specs/TrianglesTrace.tla (C30).
#include "geometrycentral/surface/intersection.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "geometrycentral/utilities/elementary_geometry.h"
#include "vt.h"
#include <algorithm>
#include <memory>
using namespace vt;
using namespace geometrycentral;
using namespace geometrycentral::surface;
typedef std::vector<long> L;
typedef std::vector<L> LL;
static long ROOT = 0;
static Vector3 v3(const L& a) { return Vector3{(double)a[0], (double)a[1], (double)a[2]}; }
static L sc(Vector3 p) {
  L r;
  for (int c = 0; c < 3; c++) {
    double x = std::floor(p[c] * 1000 + 1e-6);
    r.push_back(x > -1e6 && x < 1e6 ? (long)x : 999999);
  }
  return r;
}
static void ab(const J& d) {
  std::string s = d.str();
  about(s.substr(1, s.size() - 2));
  cpuLimit(5);
}
static bool proper(const LL& t) {
  return norm(cross(v3(t[1]) - v3(t[0]), v3(t[2]) - v3(t[0]))) > .5;
}
static void pair(const LL& P, const LL& Q) {
  static const int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  ab(J()("of", "pair")("p", ROOT)("P", P)("Q", Q));
  L r, co;
  std::vector<LL> segs;
  for (int s = 0; s < 2; s++)
    for (auto& a : ord)
      for (auto& b : ord) {
        const LL &A = s ? Q : P, &B = s ? P : Q;
        TriTriIntersectionResult3D x =
            triTriIntersection(v3(A[a[0]]), v3(A[a[1]]), v3(A[a[2]]), v3(B[b[0]]), v3(B[b[1]]), v3(B[b[2]]));
        long yes = *(unsigned char*)&x.intersect, c = *(unsigned char*)&x.coplanar;
        if (std::find(r.begin(), r.end(), yes) == r.end()) r.push_back(yes);
        if (yes && std::find(co.begin(), co.end(), c) == co.end()) co.push_back(c);
        if (yes && !c) {
          LL g{sc(x.xA), sc(x.xB)};
          if (std::find(segs.begin(), segs.end(), g) == segs.end() && segs.size() < 8) segs.push_back(g);
        }
      }
  emit(J()("op", "pair")("p", ROOT)("P", P)("Q", Q)("r", r)("co", co)("seg", segs));
}
// triangles with corners in a box, exhaustively
static std::vector<LL> triangles(const LL& pts) {
  std::vector<LL> r;
  for (size_t a = 0; a < pts.size(); a++)
    for (size_t b = a + 1; b < pts.size(); b++)
      for (size_t c = b + 1; c < pts.size(); c++) {
        LL t{pts[a], pts[b], pts[c]};
        if (proper(t)) r.push_back(t);
      }
  return r;
}
static L point(Rng& R, int s) { return {R.range(-s, s), R.range(-s, s), R.range(-s, s)}; }
static LL randomTri(Rng& R, int s) {
  while (true) {
    LL t{point(R, s), point(R, s), point(R, s)};
    if (proper(t)) return t;
  }
}
static void randomPair(Rng& R) {
  int s = R.range(1, 4);
  LL P = randomTri(R, s), Q = randomTri(R, s);
  int kind = R.range(0, 5);
  if (kind == 0) { // one plane: affine combinations of P
    do {
      for (auto& q : Q) {
        long a = R.range(-2, 2), b = R.range(-2, 2);
        for (int c = 0; c < 3; c++) q[c] = P[0][c] + a * (P[1][c] - P[0][c]) + b * (P[2][c] - P[0][c]);
      }
    } while (!proper(Q));
    // (the coordinates stay small enough for 32-bit determinants)
  } else if (kind == 1) { // a common corner
    Q[R.range(0, 2)] = R.pick(P);
    if (!proper(Q)) return;
  } else if (kind == 2) { // two common corners
    Q[0] = P[0], Q[1] = P[1];
    if (!proper(Q)) return;
  } else if (kind == 3) { // Q touches P's midpoint, scaled by two
    for (auto& p : P)
      for (auto& x : p) x *= 2;
    for (int c = 0; c < 3; c++) Q[0][c] = (P[0][c] + P[1][c]) / 2;
    if (!proper(Q)) return;
  }
  for (auto& t : {P, Q})
    for (auto& p : t)
      for (long x : p)
        if (x < -8 || x > 8) return;
  pair(P, Q);
}

struct Soup {
  LL X, F;
  std::unique_ptr<SurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> geo;
};
static void build(Soup& s) {
  std::vector<std::vector<size_t>> polys;
  std::vector<Vector3> pos;
  for (auto& f : s.F) {
    polys.push_back({});
    for (long v : f) polys.back().push_back((size_t)v - 1);
  }
  for (auto& x : s.X) pos.push_back(v3(x));
  std::tie(s.mesh, s.geo) = makeSurfaceMeshAndGeometry(polys, pos);
}
static bool randomSoup(Rng& R, Soup& s, int span, bool flat) {
  long nv = R.range(4, 9), nf = R.range(1, 6);
  for (long k = 0; k < nv; k++) {
    L p = point(R, span);
    if (flat) p[2] = 0;
    s.X.push_back(p);
  }
  for (long k = 0; k < 4 * nf && (long)s.F.size() < nf; k++) {
    L f{R.range(1, (int)nv), R.range(1, (int)nv), R.range(1, (int)nv)};
    if (f[0] == f[1] || f[1] == f[2] || f[0] == f[2]) continue;
    LL t{s.X[f[0] - 1], s.X[f[1] - 1], s.X[f[2] - 1]};
    if (!proper(t)) continue;
    bool dup = false;
    for (auto& g : s.F) {
      L a = f, b = g;
      std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
      dup = dup || a == b;
    }
    if (!dup) s.F.push_back(f);
  }
  if (s.F.empty()) return false;
  // drop unused vertices: number the used ones in order
  L map(nv + 1, 0);
  LL X;
  for (auto& f : s.F)
    for (long& v : f) {
      if (!map[v]) X.push_back(s.X[v - 1]), map[v] = (long)X.size();
      v = map[v];
    }
  s.X = X;
  build(s);
  // faces and vertices must be numbered as given
  size_t k = 0;
  for (Face f : s.mesh->faces()) {
    L g;
    for (Vertex v : f.adjacentVertices()) g.push_back((long)v.getIndex() + 1);
    std::sort(g.begin(), g.end());
    L h = s.F[k++];
    std::sort(h.begin(), h.end());
    if (g != h) return false;
  }
  return true;
}
static void meshes(Rng& R) {
  bool flat = R.chance(20);
  Soup a, b;
  int span = R.range(1, 3);
  if (!randomSoup(R, a, span, flat) || !randomSoup(R, b, span, flat)) return;
  for (int mode = 0; mode < 3; mode++) { // two meshes; one mesh against itself; the same by hand
    Soup& o = mode ? a : b;
    SurfaceIntersectionResult res;
    std::string x;
    ab(J()("of", "mesh")("p", ROOT)("X", a.X)("F", a.F)("Y", o.X)("G", o.F)("mode", mode));
    try {
      res = mode == 1 ? selfIntersections(*a.geo) : intersections(*a.geo, *o.geo);
    } catch (std::exception& e) {
      x = std::string("!") + e.what();
    }
    std::vector<LL> seg;
    for (auto& e : res.edges) {
      if (e[0] >= res.points.size() || e[1] >= res.points.size())
        seg.push_back({{999999, 0, 0}, {999999, 0, 0}});
      else
        seg.push_back({sc(res.points[e[0]]), sc(res.points[e[1]])});
    }
    emit(J()("op", "mesh")("p", ROOT)("X", a.X)("F", a.F)("Y", o.X)("G", o.F)("same", mode ? 1 : 0)("half", mode == 1 ? 1 : 0)("x", x)(
        "has", res.hasIntersections)("seg", seg));
  }
}

// a mesh with a quadrilateral, given first or second, is refused
static void quad(Rng& R) {
  Soup a, b;
  if (!randomSoup(R, a, 2, false)) return;
  b.X = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}};
  b.F = {{1, 2, 3, 4}};
  build(b);
  for (int m = 0; m < 2; m++) {
    std::string x;
    ab(J()("of", "quad")("p", ROOT)("second", m));
    try {
      if (m) intersections(*a.geo, *b.geo);
      else intersections(*b.geo, *a.geo);
    } catch (std::exception&) {
      x = "refused";
    }
    emit(J()("op", "quad")("p", ROOT)("second", m)("x", x));
  }
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long shard = A.num("shard", 0), shards = A.num("shards", 1), iters = A.num("iters", 1000);
  Rng R((uint64_t)A.num("seed", 1) * 104729 + (uint64_t)shard);
  ROOT = emit(J()("op", "init"));
  LL plane, cube, slab;
  for (long x = 0; x < 3; x++)
    for (long y = 0; y < 3; y++) plane.push_back({x, y, x + y});
  for (long x = 0; x < 2; x++)
    for (long y = 0; y < 2; y++)
      for (long z = 0; z < 2; z++) cube.push_back({x, y, z});
  long n = 0;
  for (auto& pts : {plane, cube}) {
    auto T = triangles(pts);
    for (size_t a = 0; a < T.size(); a++)
      for (size_t b = a; b < T.size(); b++)
        if (n++ % shards == shard) pair(T[a], T[b]);
  }
  if (A.num("deep", 0)) { // all pairs with corners in a 3 x 2 x 2 box
    for (long x = 0; x < 3; x++)
      for (long y = 0; y < 2; y++)
        for (long z = 0; z < 2; z++) slab.push_back({x, y, z});
    auto T = triangles(slab);
    for (size_t a = 0; a < T.size(); a++)
      for (size_t b = a; b < T.size(); b++)
        if (n++ % shards == shard) pair(T[a], T[b]);
  }
  for (long k = 0; k < iters; k++) {
    randomPair(R);
    if (k % 5 == 0) meshes(R);
    if (k % 100 == 0) quad(R);
  }
  vt::done();
  _exit(0);
}
