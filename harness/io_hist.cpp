// Records reading and writing of mesh files, for specs/MeshFilesTrace.tla (C24).
#include "geometrycentral/pointcloud/point_cloud_io.h"
#include "geometrycentral/surface/meshio.h"
#include "geometrycentral/surface/simple_polygon_mesh.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "meshops.h"
#include "seeds.h"
#include "vt.h"
#include <cmath>
#include <fstream>
#include <limits>
#include <sys/stat.h>
#include <unistd.h>
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace vt;
typedef std::vector<long> L;
static std::string scratch;

// coordinates are named by their place in this table
static const std::vector<double>& table() {
  static std::vector<double> T{0., -0., 1., -1., 2., 3., -4., 5., 10., 100., 0.1, 1. / 3, -2. / 3, 0.1 + 0.2, 3.141592653589793, 1e-5, -1e-300,
                               2.2250738585072014e-308, 1e20, -1.7976931348623157e308, 123456789.123456789, 1e15 + 0.3, 0.5, 1.0000000000000002};
  return T;
}
static long code(double x) {
  for (size_t i = 0; i < table().size(); i++)
    if (memcmp(&x, &table()[i], sizeof x) == 0) return (long)i;
  return -1;
}
static L code(const Vector3& p) { return {code(p.x), code(p.y), code(p.z)}; }
static std::string num(Rng& R, long c) {
  char b[64];
  double x = table()[c];
  bool whole = x == std::floor(x) && std::fabs(x) <= 100;
  switch (whole ? R.below(5) : R.below(2)) {
  case 0: snprintf(b, 64, "%.17g", x); break;
  case 1: snprintf(b, 64, "%.17e", x); break;
  case 2: snprintf(b, 64, "%.3f", x); break;
  case 3: snprintf(b, 64, std::signbit(x) ? "%.0f." : "+%.0f", x); break;
  default: snprintf(b, 64, "%.0fE+00", x); break;
  }
  return b;
}
static std::string sp(Rng& R) { return R.chance(85) ? " " : R.chance(50) ? "  " : "\t"; }
struct Text {
  Rng& R;
  bool crlf;
  bool lastNL;
  std::string s;
  Text(Rng& r) : R(r), crlf(r.chance(20)), lastNL(r.chance(80)) {}
  void line(const std::string& t) { s += t + (R.chance(8) ? sp(R) : std::string()) + (crlf ? "\r\n" : "\n"); }
  std::string str() {
    if (lastNL || s.empty()) return s;
    return s.substr(0, s.size() - (crlf ? 2 : 1));
  }
};
struct Result {
  std::string x;
  bool mesh = false, uvs = false, ok = true;
  std::vector<L> polys, pts;
  std::vector<std::vector<L>> uv;
  void soup(const SimplePolygonMesh& m) {
    for (auto& f : m.polygons) {
      polys.push_back({});
      for (size_t i : f) polys.back().push_back(i > 100000 ? 100000 : (long)i);
    }
    for (auto& p : m.vertexCoordinates) pts.push_back(code(p));
    for (auto& f : m.paramCoordinates) {
      uv.push_back({});
      for (auto& c : f) uv.back().push_back({code(c.x), code(c.y)});
    }
  }
  void surface(SurfaceMesh& m, VertexPositionGeometry& g, CornerData<Vector2>* par = nullptr) {
    mesh = true;
    VertexData<size_t> ind = m.getVertexIndices();
    for (Face f : m.faces()) {
      polys.push_back({});
      if (par) uv.push_back({});
      for (Halfedge h : f.adjacentHalfedges()) {
        polys.back().push_back((long)ind[h.vertex()]);
        if (par) uv.back().push_back({code((*par)[h.corner()].x), code((*par)[h.corner()].y)});
      }
    }
    for (Vertex v : m.vertices()) pts.push_back(code(g.inputVertexPositions[v]));
    uvs = par != nullptr;
  }
  void put(J& j) const { j("ok", ok)("x", x)("mesh", mesh)("uvs", uvs)("polys", polys)("pts", pts)("uv", uv); }
};
static std::string tmpFile(const std::string& ext, const std::string& text) {
  std::string f = scratch + "/m." + ext;
  std::ofstream o(f, std::ios::binary);
  o << text;
  return f;
}
static const std::vector<std::string>& entries() {
  static std::vector<std::string> E{"soup", "soupS", "soupF", "surf", "surfS", "man", "manS", "psurf", "pman", "load"};
  return E;
}
static Result readBy(Rng& R, const std::string& how, const std::string& type, const std::string& text) {
  Result r;
  std::istringstream in(text);
  try {
    bool given = R.chance(30);
    std::string f, ext = R.chance(20) && !given ? type : type;
    if (how != "soupS" && how != "surfS" && how != "manS") {
      if (given) ext = R.chance(50) ? "txt" : type;
      if (!given && R.chance(20))
        for (auto& c : ext) c = (char)toupper(c);
      f = tmpFile(ext, text);
    }
    std::string ty = given ? type : "";
    if (how == "soup") {
      SimplePolygonMesh m(f, ty);
      r.soup(m);
    } else if (how == "soupS") {
      if (R.chance(50)) {
        SimplePolygonMesh m(in, type);
        r.soup(m);
      } else {
        SimplePolygonMesh m({{0, 1, 2}}, {Vector3{1, 2, 3}}, {{Vector2{1, 2}}}); // forgets what it held
        m.readMeshFromFile(in, type);
        r.soup(m);
      }
    } else if (how == "soupF") {
      SimplePolygonMesh m({{0, 1, 2}}, {Vector3{1, 2, 3}}, {{Vector2{1, 2}}});
      std::string det;
      m.readMeshFromFile(f, ty, det);
      if (det != type) r.x = "type";
      r.soup(m);
    } else if (how == "surf" || how == "surfS") {
      auto t = how == "surf" ? readSurfaceMesh(f, ty) : readSurfaceMesh(in, type);
      r.surface(*std::get<0>(t), *std::get<1>(t));
    } else if (how == "man" || how == "manS" || how == "load") {
      auto t = how == "man" ? readManifoldSurfaceMesh(f, ty) : how == "load" ? loadMesh(f, ty) : readManifoldSurfaceMesh(in, type);
      r.surface(*std::get<0>(t), *std::get<1>(t));
    } else if (how == "psurf") {
      auto t = readParameterizedSurfaceMesh(f, ty);
      r.surface(*std::get<0>(t), *std::get<1>(t), std::get<2>(t).get());
    } else {
      auto t = readParameterizedManifoldSurfaceMesh(f, ty);
      r.surface(*std::get<0>(t), *std::get<1>(t), std::get<2>(t).get());
    }
  } catch (std::exception&) {
    r = Result();
    r.x = "x";
  }
  return r;
}
// can these faces be a surface mesh at all (C05)
static bool buildable(const std::vector<std::vector<size_t>>& polys, const std::string& how) {
  if (how.substr(0, 4) == "soup") return true;
  SimplePolygonMesh m;
  m.polygons = polys;
  for (auto& f : polys)
    for (size_t i : f)
      if (i >= m.nVertices()) m.vertexCoordinates.resize(i + 1);
  m.stripUnusedVertices();
  try {
    if (how == "surf" || how == "surfS" || how == "psurf") SurfaceMesh q(m.polygons);
    else ManifoldSurfaceMesh q(m.polygons);
  } catch (std::exception&) {
    return false;
  }
  return true;
}
static L coords(Rng& R, int n, bool simple) {
  L c;
  for (int i = 0; i < n; i++) c.push_back(simple ? R.range(2, 9) : R.range(0, (int)table().size() - 1));
  return c;
}
static std::string join(Rng& R, const std::string& head, const L& c) {
  std::string s = head;
  for (long x : c) s += sp(R) + num(R, x);
  return s;
}
typedef std::vector<std::vector<size_t>> PL;
static PL pickPolys(Rng& R) {
  static auto S = seedMeshes();
  PL P;
  do {
    P.clear();
    for (auto& q : R.pick(S).second) P.push_back(std::vector<size_t>(q.begin(), q.end()));
  } while (P.size() > 12);
  return P;
}
static size_t count(const PL& P) {
  size_t n = 0;
  for (auto& f : P)
    for (size_t i : f) n = std::max(n, i + 1);
  return n;
}
static void rawKey(J& j, const char* k, const std::string& v) {
  j.key(k);
  j.s += v;
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long iters = A.num("iters", 50);
  Rng R((uint64_t)A.num("seed", 1) * 32452843 + (uint64_t)A.num("shard", 0));
  scratch = A.str("out", "trace") + ".d"; // beside the trace
  if (mkdir(scratch.c_str(), 0700) && errno != EEXIST) _exit(9);
  auto clean = [&]() {
    for (auto e : {"obj", "OBJ", "off", "OFF", "stl", "STL", "txt", "ply"}) unlink((scratch + "/m." + e).c_str());
    unlink((scratch + "/w.obj").c_str());
    for (auto e : {"obj", "PLY", "ply", "txt"}) unlink((scratch + "/c." + e).c_str());
    unlink((scratch + "/m").c_str());
    rmdir(scratch.c_str());
  };
  long par = emit(J()("op", "init"));
  for (long it = 0; it < iters; it++) {
    int kind = R.range(0, 11);
    J e;
    std::string how = R.pick(entries());
    auto ab = [&](const std::string& of, const std::string& text) {
      J d;
      d("of", of)("p", par)("how", how)("text", text.substr(0, 900));
      std::string t = d.str();
      about(t.substr(1, t.size() - 2));
      cpuLimit(5);
    };
    PL P = pickPolys(R);
    size_t nv = count(P);
    if (kind <= 3) { // --- OBJ text
      Text T(R);
      std::string lines;
      auto log = [&](const std::string& s) { lines += (lines.empty() ? "" : ",") + s; };
      auto logNums = [&](const char* k, const L& c) {
        std::string s = std::string("[\"") + k + "\"";
        for (long x : c) s += "," + std::to_string(x);
        log(s + "]");
      };
      auto junk = [&]() {
        if (!R.chance(15)) return;
        static std::vector<std::string> X{"# comment", "#", "", "g group", "o thing", "s off", "s 1", "usemtl a", "mtllib a.mtl", "vn 0 0 1", "# f 1 2 3", "# x \\", "l 1 2", "   "};
        T.line(R.pick(X));
      };
      // vertices used, unused ones between, in three orders of the file
      bool uv = R.chance(60);
      int extra = R.range(0, 2);
      size_t total = nv + extra;
      std::vector<size_t> name; // polygon vertex -> position in the file
      for (size_t i = 0; i < total; i++) name.push_back(i);
      if (R.chance(50))
        for (size_t i = total; i > 1; i--) std::swap(name[i - 1], name[R.below(i)]);
      size_t nuv = uv ? R.range(1, 6) : R.chance(20) ? 2 : 0, uvOut = 0, vOut = 0;
      auto putV = [&]() {
        L c = coords(R, 3, false);
        std::string s = join(R, R.chance(5) ? " v" : "v", c);
        if (R.chance(5)) s += " 1.0";
        else if (R.chance(5)) s += " 0.5 0.25 1";
        T.line(s);
        logNums("v", c);
        vOut++;
        junk();
      };
      auto putVT = [&]() {
        L c = coords(R, 2, false);
        bool one = R.chance(5);
        if (one) c[1] = 0;
        std::string s = one ? join(R, "vt", {c[0]}) : join(R, "vt", c);
        if (!one && R.chance(10)) s += " 0";
        T.line(s);
        logNums("vt", c);
        uvOut++;
        junk();
      };
      bool late = R.chance(20); // faces as soon as possible
      junk();
      if (!late) {
        while (vOut < total || uvOut < nuv) (vOut < total && (uvOut >= nuv || R.chance(60))) ? putV() : putVT();
      } else
        while (uvOut < nuv) putVT();
      for (auto& f : P) {
        for (size_t i : f)
          while (vOut <= name[i]) putV();
        std::string s = "f", l = "[\"f\",[";
        int slash = R.range(0, 2);
        bool cut = false;
        for (size_t k = 0; k < f.size(); k++) {
          long a = (long)name[f[k]] + 1, b = uv ? R.range(1, (int)nuv) : 0, c = 0;
          if (R.chance(25)) a -= (long)vOut + 1;
          if (b && R.chance(25)) b -= (long)uvOut + 1;
          std::string t = std::to_string(a);
          if (b) t += "/" + std::to_string(b);
          if (slash == 1) c = 1, t += b ? "/1" : "//1";
          else if (slash == 2 && b && R.chance(20)) t += "/";
          if (k && !cut && R.chance(5)) {
            s += std::string(" \\") + (T.crlf ? "\r\n" : "\n");
            cut = true;
          }
          s += sp(R) + t;
          l += (k ? "," : "") + std::string("[") + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "]";
        }
        T.line(s);
        log(l + "]]");
        junk();
      }
      while (vOut < total) putV();
      std::string text = T.str();
      ab("obj", text);
      Result r = readBy(R, how, "obj", text);
      e("op", "obj")("p", par)("how", how);
      rawKey(e, "lines", "[" + lines + "]");
      r.ok = buildable(P, how);
      r.put(e);
    } else if (kind == 4) { // --- OFF text
      Text T(R);
      size_t total = nv + R.range(0, 2);
      std::vector<L> V;
      for (size_t i = 0; i < total; i++) V.push_back(coords(R, 3, false));
      auto junk = [&]() {
        if (!R.chance(12)) return;
        static std::vector<std::string> X{"# comment", "#", "", "  ", "  # more", "\t"};
        T.line(R.pick(X));
      };
      std::string counts = std::to_string(total) + sp(R) + std::to_string(P.size()) + (R.chance(80) ? sp(R) + "0" : "");
      junk();
      if (R.chance(20)) T.line("OFF " + counts);
      else {
        T.line(R.chance(10) ? "OFF # header" : "OFF");
        junk();
        T.line(counts);
      }
      std::vector<L> F;
      for (auto& c : V) {
        junk();
        std::string s = R.chance(5) ? " " : "";
        for (size_t k = 0; k < 3; k++) s += (k ? sp(R) : "") + num(R, c[k]);
        if (R.chance(5)) s += " 255 0 0";
        T.line(s);
      }
      for (auto& f : P) {
        junk();
        std::string s = std::to_string(f.size());
        F.push_back({});
        for (size_t i : f) s += sp(R) + std::to_string(i), F.back().push_back((long)i);
        if (R.chance(5)) s += " 255 0 0";
        T.line(s);
      }
      junk();
      std::string text = T.str();
      ab("off", text);
      Result r = readBy(R, how, "off", text);
      e("op", "off")("p", par)("how", how)("V", V)("F", F);
      r.ok = buildable(P, how);
      r.put(e);
    } else if (kind == 5) { // --- STL text or bytes, triangles with whole-number corners
      for (auto& f : P) f.resize(3);
      std::vector<L> V;
      for (size_t i = 0; i < nv; i++) {
        L c;
        bool again;
        do {
          c = coords(R, 3, true);
          again = std::find(V.begin(), V.end(), c) != V.end();
        } while (again);
        V.push_back(c);
      }
      std::vector<std::vector<L>> F;
      bool binary = R.chance(40);
      Text T(R);
      std::string bytes(80, R.chance(50) ? '\0' : 'x');
      uint32_t n = (uint32_t)P.size();
      bytes.append((char*)&n, 4);
      std::string name = R.chance(50) ? " thing" : "";
      T.line((R.chance(20) ? "SOLID" : "solid") + name);
      for (auto& f : P) {
        L nn{R.range(-2, 2), R.range(-2, 2), R.range(-2, 2)};
        if (R.chance(20) || how.find("man") != std::string::npos || how == "load") nn = {0, 0, 0};
        F.push_back({nn});
        std::string ind = R.chance(50) ? "  " : "";
        char b[200];
        snprintf(b, 200, "facet normal %ld %ld %ld", nn[0], nn[1], nn[2]);
        if (R.chance(5)) T.line("");
        T.line(ind + b);
        T.line(ind + ind + "outer loop");
        float v[3] = {(float)nn[0], (float)nn[1], (float)nn[2]};
        bytes.append((char*)v, 12);
        for (size_t i : f) {
          F.back().push_back(V[i]);
          std::string s = ind + "vertex";
          for (long x : V[i]) s += sp(R) + num(R, x);
          T.line(s);
          for (int k = 0; k < 3; k++) v[k] = (float)table()[V[i][k]];
          bytes.append((char*)v, 12);
        }
        T.line(ind + "endloop");
        T.line("endfacet");
        bytes.append(2, '\0');
      }
      T.line("endsolid" + name);
      std::string text = binary ? bytes : T.str();
      ab("stl", binary ? "" : text);
      Result r = readBy(R, how, "stl", text);
      std::vector<L> val;
      for (double x : table()) val.push_back({x == std::floor(x) && std::fabs(x) <= 100 ? (long)x : 0});
      e("op", "stl")("p", par)("how", how)("T", F)("val", val);
      r.ok = buildable(P, how);
      r.put(e);
    } else if (kind == 6) { // --- soup: write and read back
      SimplePolygonMesh m;
      m.polygons = P;
      size_t total = nv + R.range(0, 2);
      Result orig;
      for (size_t i = 0; i < total; i++) {
        L c = coords(R, 3, false);
        m.vertexCoordinates.push_back(Vector3{table()[c[0]], table()[c[1]], table()[c[2]]});
      }
      if (R.chance(60))
        for (auto& f : P) {
          m.paramCoordinates.push_back({});
          for (size_t k = 0; k < f.size(); k++) {
            L c = coords(R, 2, false);
            m.paramCoordinates.back().push_back(Vector2{table()[c[0]], table()[c[1]]});
          }
        }
      orig.soup(m);
      ab("soupio", "");
      Result r;
      try {
        std::string text;
        if (R.chance(50)) {
          std::ostringstream o;
          m.writeMesh(o, "obj");
          text = o.str();
        } else {
          m.writeMesh(scratch + "/w.obj", R.chance(50) ? "obj" : "");
          std::ifstream in(scratch + "/w.obj");
          std::ostringstream o;
          o << in.rdbuf();
          text = o.str();
        }
        r = readBy(R, how, "obj", text);
      } catch (std::exception&) {
        r.x = "x";
      }
      Result same;
      same.soup(m);
      e("op", "soupio")("p", par)("how", how)("kept", same.polys == orig.polys && same.pts == orig.pts && same.uv == orig.uv);
      J o;
      orig.put(o);
      e("orig", o);
      P.clear();
      for (auto& f : orig.polys) P.push_back(std::vector<size_t>(f.begin(), f.end()));
      r.ok = buildable(P, how);
      r.put(e);
    } else if (kind <= 8) { // --- surface mesh at any point of its edit history: write and read back
      std::unique_ptr<SurfaceMesh> m(R.chance(70) ? new ManifoldSurfaceMesh(P) : new SurfaceMesh(P));
      bool manifold = dynamic_cast<ManifoldSurfaceMesh*>(m.get()) != nullptr;
      if (manifold) {
        int n = R.range(0, 6);
        ManifoldSurfaceMesh& mm = dynamic_cast<ManifoldSurfaceMesh&>(*m);
        for (int k = 0; k < n; k++) {
          Op o = randomOp(mm, R, {{"flip", 3}, {"insVE", 2}, {"split", 3}, {"insV", 2}, {"tri", 1}, {"rmV", 2}, {"rmF", 2}, {"collapse", 3}, {"conn", 1}}, 40);
          if (mm.nFaces() < 20) applyOp(mm, o);
        }
        if (R.chance(20)) mm.compress();
      }
      VertexPositionGeometry g(*m);
      CornerData<Vector2> uv(*m);
      CornerData<Vector3> nrm(*m);
      for (Vertex v : m->vertices()) {
        L c = coords(R, 3, false);
        g.inputVertexPositions[v] = Vector3{table()[c[0]], table()[c[1]], table()[c[2]]};
      }
      for (Corner c : m->corners()) {
        L q = coords(R, 2, false);
        uv[c] = Vector2{table()[q[0]], table()[q[1]]};
        nrm[c] = Vector3{0, 0, 1};
      }
      bool withUV = R.chance(60);
      Result orig;
      orig.surface(*m, g, withUV ? &uv : nullptr);
      int writer = R.range(0, 4);
      ab("meshio", "");
      Result r;
      try {
        std::string text, f = scratch + "/w.obj";
        std::ostringstream o;
        bool fromFile = true;
        switch (writer) {
        case 0: withUV ? writeSurfaceMesh(*m, g, uv, f, R.chance(50) ? "obj" : "") : writeSurfaceMesh(*m, g, f, R.chance(50) ? "obj" : ""); break;
        case 1:
          withUV ? writeSurfaceMesh(*m, g, uv, o, "obj") : writeSurfaceMesh(*m, g, o, "obj");
          fromFile = false;
          break;
        case 2:
        case 3: {
          bool ok = withUV ? WavefrontOBJ::write(f, g, uv) : WavefrontOBJ::write(f, g);
          if (!ok) throw std::runtime_error("no");
          break;
        }
        default: {
          bool ok = withUV ? WavefrontOBJ::write(f, g, uv, nrm) : WavefrontOBJ::write(f, g, nrm);
          if (!ok) throw std::runtime_error("no");
        }
        }
        if (fromFile) {
          std::ifstream in(f);
          o << in.rdbuf();
        }
        text = o.str();
        r = readBy(R, how, "obj", text);
      } catch (std::exception&) {
        r.x = "x";
      }
      e("op", "meshio")("p", par)("how", how)("writer", writer);
      J o;
      orig.put(o);
      e("orig", o);
      P.clear();
      for (auto& f : orig.polys) P.push_back(std::vector<size_t>(f.begin(), f.end()));
      r.ok = buildable(P, how);
      r.put(e);
    } else if (kind == 10) { // --- PLY
      int fmt = R.range(0, 2);
      bool small = R.chance(40); // whole numbers, stored as float
      size_t total = nv + R.range(0, 2);
      std::vector<L> V, F;
      for (size_t i = 0; i < total; i++) V.push_back(coords(R, 3, small));
      std::string ft = small ? R.pick(std::vector<std::string>{"float", "float32", "double"}) : R.pick(std::vector<std::string>{"double", "float64"});
      bool dbl = ft == "double" || ft == "float64", extra = R.chance(30), quality = R.chance(20);
      std::string it = R.pick(std::vector<std::string>{"int", "uint", "short", "ushort", "uchar", "int32"}), out = "ply\n";
      size_t iw = it == "uchar" ? 1 : it.find("short") != std::string::npos ? 2 : 4;
      out += std::string("format ") + (fmt == 0 ? "ascii" : fmt == 1 ? "binary_little_endian" : "binary_big_endian") + " 1.0\n";
      if (R.chance(50)) out += "comment made by hand\n";
      out += "element vertex " + std::to_string(total) + "\n";
      out += "property " + ft + " x\nproperty " + ft + " y\n";
      if (extra) out += "property uchar red\n";
      out += "property " + ft + " z\n";
      out += "element face " + std::to_string(P.size()) + "\n";
      if (quality) out += "property float quality\n";
      out += "property list uchar " + it + (R.chance(50) ? " vertex_indices\n" : " vertex_index\n") + "end_header\n";
      auto raw = [&](const void* b, size_t w) {
        std::string t((const char*)b, w);
        if (fmt == 2) std::reverse(t.begin(), t.end());
        out += t;
      };
      auto real = [&](double x) {
        float f = (float)x;
        dbl ? raw(&x, 8) : raw(&f, 4);
      };
      auto whole = [&](uint32_t x, size_t w) { raw(&x, w); };
      for (auto& c : V) {
        for (int k = 0; k < 3; k++) {
          if (fmt == 0) out += (k ? " " : "") + num(R, c[k]) + (extra && k == 1 ? " 200" : "");
          else {
            real(table()[c[k]]);
            if (extra && k == 1) whole(200, 1);
          }
        }
        if (fmt == 0) out += "\n";
      }
      for (auto& f : P) {
        F.push_back({});
        float q = 1.5f;
        if (fmt == 0) out += (quality ? "1.5 " : "") + std::to_string(f.size());
        else {
          if (quality) raw(&q, 4);
          whole((uint32_t)f.size(), 1);
        }
        for (size_t i : f) {
          F.back().push_back((long)i);
          if (fmt == 0) out += " " + std::to_string(i);
          else
            whole((uint32_t)i, iw);
        }
        if (fmt == 0) out += "\n";
      }
      ab("ply", fmt == 0 ? out : "");
      Result r = readBy(R, how, "ply", out);
      e("op", "off")("p", par)("how", how)("V", V)("F", F);
      r.ok = buildable(P, how);
      r.put(e);
    } else if (kind == 11) { // --- point clouds: write and read back
      using namespace geometrycentral::pointcloud;
      size_t n = (size_t)R.range(0, 12);
      std::vector<L> V;
      PointCloud cloud(n);
      PointPositionGeometry g(cloud);
      for (size_t i = 0; i < n; i++) {
        V.push_back(coords(R, 3, false));
        g.positions[i] = Vector3{table()[V[i][0]], table()[V[i][1]], table()[V[i][2]]};
      }
      ab("cloud", "");
      std::string type = R.chance(50) ? "obj" : "ply", x;
      std::vector<L> got;
      bool bad = R.chance(8);
      try {
        std::unique_ptr<PointCloud> c2;
        std::unique_ptr<PointPositionGeometry> g2;
        bool file = R.chance(50), given = R.chance(40);
        std::string f = scratch + "/c." + (given ? std::string("txt") : type == "ply" && R.chance(30) ? "PLY" : type);
        std::ostringstream o;
        if (bad) {
          std::istringstream in("ply\nformat ascii 1.0\nend_header\n");
          switch (R.below(6)) {
          case 0: writePointCloud(cloud, g, o, "off"); break;
          case 1: writePointCloud(cloud, g, scratch + "/none/c.ply"); break;
          case 2: writePointCloud(cloud, g, scratch + "/c.txt"); break;
          case 3: readPointCloud(scratch + "/none.ply"); break;
          case 4: readPointCloud(in, "ply"); break;
          default: readPointCloud(in, "stl");
          }
        } else {
          if (file) writePointCloud(cloud, g, f, given ? type : "");
          else
            writePointCloud(cloud, g, o, type);
          if (file && R.chance(50)) std::tie(c2, g2) = readPointCloud(f, given ? type : "");
          else {
            if (file) {
              std::ifstream in(f, std::ios::binary);
              o << in.rdbuf();
            }
            std::istringstream in(o.str());
            std::tie(c2, g2) = readPointCloud(in, type);
          }
          for (Point q : c2->points()) got.push_back(code(g2->positions[q]));
        }
      } catch (std::exception&) {
        x = "x";
      }
      e("op", "cloud")("p", par)("bad", bad)("x", x)("pts", V)("got", got);
    } else { // --- malformed or unsupported
      struct Bad {
        const char *type, *text, *ext;
        bool surfaceOnly;
      };
      static std::vector<Bad> B{
          {"obj", "v 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n", 0, 0},
          {"obj", "v 0 0 x\nv 1 0 0\nv 0 1 0\nf 1 2 3\n", 0, 0},
          {"obj", "v\nv 1 0 0\nv 0 1 0\nf 1 2 3\n", 0, 0},
          {"obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 x 3\n", 0, 0},
          {"obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf a b c\n", 0, 0},
          {"obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nvt 0 0\nf 1/1 2/1 3/2\n", 0, 0},
          {"obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1/1 2/1 3/1\n", 0, 0},
          {"obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nvt 0 0\nf 1/-2 2/1 3/1\n", 0, 0},
          {"obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nvt u v\nf 1/1 2/1 3/1\n", 0, 0},
          {"obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nvt 0 0\nf 1/z 2/1 3/1\n", 0, 0},
          {"obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 4\n", 0, 1},
          {"obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 0 1 2\n", 0, 1},
          {"obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 -4\n", 0, 1},
          {"off", "", 0, 0},
          {"off", "0FF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n", 0, 0},
          {"off", "3 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n", 0, 0},
          {"off", "OFF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n", 0, 0},
          {"off", "OFF\n3 1 0\n0 0 0\n1 0 0\n", 0, 0},
          {"off", "OFF\n", 0, 0},
          {"off", "OFF\nx y\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n", 0, 0},
          {"off", "OFF\n3\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n", 0, 0},
          {"off", "OFF\n3 1 0\n0 0 0\n1 0\n0 1 0\n3 0 1 2\n", 0, 0},
          {"off", "OFF\n3 1 0\n0 0 0\n1 0 a\n0 1 0\n3 0 1 2\n", 0, 0},
          {"off", "OFF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1\n", 0, 0},
          {"off", "OFF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1 b\n", 0, 0},
          {"off", "OFF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\nq 0 1 2\n", 0, 0},
          {"off", "OFF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1 3\n", 0, 1},
          {"stl", "", 0, 0},
          {"stl", "so", 0, 0},
          {"stl", "not an stl file", 0, 0},
          {"stl", "solid\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nendloop\nendfacet\nendsolid\n", 0, 0},
          {"stl", "solid\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendfacet\nendsolid\n", 0, 0},
          {"stl", "solid\nfacet normal 0 0 1\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\nendsolid\n", 0, 0},
          {"stl", "solid\nfacet 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\nendsolid\n", 0, 0},
          {"stl", "solid\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendsolid\n", 0, 0},
          {"stl", "solid\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1\nendloop\nendfacet\nendsolid\n", 0, 0},
          {"stl", "solid\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 w\nendloop\nendfacet\nendsolid\n", 0, 0},
          {"stl", "solid\nfacet normal 0 0\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\nendsolid\n", 0, 0},
          {"stl", "solid\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\n", 0, 0},
          {"BIN", "", 0, 0},
          {"xyz", "0 0 0\n", 0, 0},
          {"NOFILE", "", 0, 0},
          {"NOEXT", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n", 0, 0},
          {"BADEXT", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n", 0, 0},
          {"WRITE", "", 0, 0},
          {"NONMAN", "v 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nv 1 1 1\nf 1 2 3\nf 2 1 4\nf 1 2 5\n", 0, 0},
          {"DIR", "", 0, 0},
      };
      const Bad& b = B[(size_t)it % B.size()];
      std::string type = b.type, text = b.text;
      do how = R.pick(entries());
      while (b.surfaceOnly && how.substr(0, 4) == "soup");
      ab("bad", type + ": " + text);
      Result r;
      try {
        if (type == "NOFILE") {
          if (how == "soup") SimplePolygonMesh q(scratch + "/none.obj");
          else if (R.chance(50)) readSurfaceMesh(scratch + "/none.off");
          else readManifoldSurfaceMesh(scratch + "/none.txt", "stl");
        } else if (type == "DIR") {
          SimplePolygonMesh q({{0, 1, 2}}, {Vector3{0, 0, 0}, Vector3{1, 0, 0}, Vector3{0, 1, 0}});
          q.writeMesh(scratch + "/none/m.obj");
        } else if (type == "NOEXT") {
          std::string f = scratch + "/m";
          std::ofstream o(f);
          o << text;
          o.close();
          SimplePolygonMesh q(f);
        } else if (type == "BADEXT") {
          std::string f = tmpFile("txt", text);
          SimplePolygonMesh q(f);
        } else if (type == "WRITE") {
          SimplePolygonMesh q({{0, 1, 2}}, {Vector3{0, 0, 0}, Vector3{1, 0, 0}, Vector3{0, 1, 0}});
          std::ostringstream o;
          q.writeMesh(o, R.chance(50) ? "stl" : "nonsense");
        } else if (type == "NONMAN")
          r = readBy(R, R.chance(50) ? "man" : "manS", "obj", text);
        else if (type == "BIN") {
          uint32_t n = 2;
          text = std::string(80, 'b') + std::string((char*)&n, 4) + std::string(50 + R.range(0, 49), '\0');
          r = readBy(R, how, "stl", text);
        } else
          r = readBy(R, how, type, text);
      } catch (std::exception&) {
        r.x = "x";
      }
      e("op", "bad")("p", par)("how", how)("type", type)("text", text.size() > 84 && type == "BIN" ? std::string("...") : text)("x", r.x);
    }
    emit(e);
  }
  clean();
  vt::done();
  _exit(0);
}
