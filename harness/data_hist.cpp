// Records histories of per-element containers (MeshData) living on up to two meshes and a point cloud while the meshes
// are edited, copied, compressed and destroyed. Validated by specs/MeshDataTrace.tla (C06, C07, C08).
#include "geometrycentral/pointcloud/point_cloud.h"
#include "meshops.h"
#include "seeds.h"
#include <memory>
using namespace vt;
using namespace geometrycentral::pointcloud;

struct Cloud : public PointCloud { // gives access to the protected mutators
  using PointCloud::PointCloud;
  using PointCloud::deleteElement;
  using PointCloud::getNewPoint;
};

// ---- values: every container logs integers
template <class T>
struct Conv;
template <>
struct Conv<int> {
  static int from(long x) { return (int)x; }
  static long to(const int& x) { return x; }
};
template <>
struct Conv<bool> {
  static bool from(long x) { return x != 0; }
  static long to(const bool& x) { return x; }
};
template <>
struct Conv<std::string> {
  static std::string from(long x) { return x == 0 ? std::string() : "a rather long value, not stored inline: " + std::to_string(x); }
  static long to(const std::string& s) {
    if (s.empty()) return 0;
    size_t k = s.rfind(' ');
    return k == std::string::npos ? -777 : atol(s.c_str() + k + 1);
  }
};

struct Slots {
  std::unique_ptr<SurfaceMesh> m[2];
  std::string kind[2]; // how the mesh came to be
  std::unique_ptr<Cloud> pc;
};
static Slots S;

template <class E>
typename E::ParentMeshT* meshOf(int slot);
template <>
SurfaceMesh* meshOf<Vertex>(int s) { return S.m[s - 1].get(); }
template <>
SurfaceMesh* meshOf<Halfedge>(int s) { return S.m[s - 1].get(); }
template <>
SurfaceMesh* meshOf<Corner>(int s) { return S.m[s - 1].get(); }
template <>
SurfaceMesh* meshOf<Edge>(int s) { return S.m[s - 1].get(); }
template <>
SurfaceMesh* meshOf<Face>(int s) { return S.m[s - 1].get(); }
template <>
SurfaceMesh* meshOf<BoundaryLoop>(int s) { return S.m[s - 1].get(); }
template <>
PointCloud* meshOf<Point>(int) { return S.pc.get(); }

struct Box {
  std::string k, ty;
  bool moved = false;
  virtual ~Box() {}
  virtual int slot() = 0;
  virtual std::vector<long> values() = 0;
  virtual long def() = 0;
  virtual long size() = 0;
  virtual void write(size_t i, long v) = 0;
  virtual void fill(long v) = 0;
  virtual void setDefault(long v) = 0;
  virtual void clear() = 0;
  virtual std::vector<long> toVec(const std::vector<long>* idx) = 0;
  virtual std::vector<long> byIndex() = 0;
  virtual void fromVec(const std::vector<long>& v, const std::vector<long>* idx) = 0;
  virtual Box* copy() = 0;
  virtual Box* move() = 0;
  virtual void assign(Box* o, bool mv) = 0;
  virtual void swap(Box* o) = 0;
  virtual Box* reinterp(int slot) = 0;
  virtual Box* arith(const std::string& op, Box* o, long sc, int form) = 0;
  virtual void inplace(const std::string& op, Box* o, long sc) = 0;
};

template <class E, class T>
struct BoxT;
template <class E, class T>
BoxT<E, T>* mk(MeshData<E, T>&& d, const std::string& k, const std::string& ty) {
  auto* b = new BoxT<E, T>(std::move(d));
  b->k = k;
  b->ty = ty;
  return b;
}

// arithmetic only makes sense for numbers
template <class E, class T>
struct Arith {
  static Box* bin(MeshData<E, T>&, const std::string&, MeshData<E, T>*, long, int, const std::string&) { return nullptr; }
  static void inp(MeshData<E, T>&, const std::string&, MeshData<E, T>*, long) {}
};
template <class E>
struct Arith<E, int> {
  static Box* bin(MeshData<E, int>& a, const std::string& op, MeshData<E, int>* b, long sc, int form, const std::string& k) {
    int s = (int)sc;
    if (op == "neg") return mk(-a, k, "i");
    if (op == "pos") return mk(+a, k, "i");
    if (op == "not") return mk(!a, k, "b");
    if (op == "inv") return mk(~a, k, "i");
    // form 0: container op container, 1: container op scalar, 2: scalar op container
#define OPS(o, ty) return form == 0 ? mk(a o *b, k, ty) : form == 1 ? mk(a o s, k, ty) : mk(s o a, k, ty)
    if (op == "+") OPS(+, "i");
    if (op == "-") OPS(-, "i");
    if (op == "*") OPS(*, "i");
    if (op == "/") OPS(/, "i");
    if (op == "%") OPS(%, "i");
    if (op == "&") OPS(&, "i");
    if (op == "|") OPS(|, "i");
    if (op == "^") OPS(^, "i");
    if (op == "<<") OPS(<<, "i");
    if (op == ">>") OPS(>>, "i");
    if (op == "&&") OPS(&&, "b");
    if (op == "||") OPS(||, "b");
#undef OPS
    return nullptr;
  }
  static void inp(MeshData<E, int>& a, const std::string& op, MeshData<E, int>* b, long sc) {
    int s = (int)sc;
#define OPS(o) { if (b) a o *b; else a o s; return; }
    if (op == "+") OPS(+=)
    if (op == "-") OPS(-=)
    if (op == "*") OPS(*=)
    if (op == "/") OPS(/=)
    if (op == "%") OPS(%=)
    if (op == "&") OPS(&=)
    if (op == "|") OPS(|=)
    if (op == "^") OPS(^=)
    if (op == "<<") OPS(<<=)
    if (op == ">>") OPS(>>=)
#undef OPS
  }
};

template <class E, class T>
struct BoxT : Box {
  MeshData<E, T> d;
  explicit BoxT(MeshData<E, T>&& x) : d(std::move(x)) {}
  BoxT() {}
  explicit BoxT(const MeshData<E, T>& x) : d(x) {}
  typedef Eigen::Matrix<T, Eigen::Dynamic, 1> Vec;
  int slot() override {
    if (!d.getMesh()) return 0;
    for (int s : {1, 2})
      if (std::is_same<E, Point>::value ? (void*)S.pc.get() == (void*)d.getMesh() : (void*)meshOf<E>(s) == (void*)d.getMesh())
        return std::is_same<E, Point>::value ? 3 : s;
    return 99;
  }
  std::vector<E> elems() {
    std::vector<E> L;
    if (d.getMesh())
      for (E e : iterateElements<E>(d.getMesh())) L.push_back(e);
    return L;
  }
  std::vector<long> values() override {
    std::vector<long> r;
    const MeshData<E, T>& cd = d;
    for (E e : elems()) r.push_back(Conv<T>::to(cd[e]));
    return r;
  }
  long def() override { return Conv<T>::to(d.getDefault()); }
  long size() override { return (long)d.size(); }
  void write(size_t i, long v) override { d[elems()[i]] = Conv<T>::from(v); }
  void fill(long v) override { d.fill(Conv<T>::from(v)); }
  void setDefault(long v) override { d.setDefault(Conv<T>::from(v)); }
  void clear() override { d.clear(); }
  MeshData<E, size_t> indexer(const std::vector<long>& idx) {
    MeshData<E, size_t> I(*d.getMesh());
    size_t k = 0;
    for (E e : elems()) {
      I[e] = idx[k] < 0 ? INVALID_IND : (size_t)idx[k];
      k++;
    }
    return I;
  }
  std::vector<long> toVec(const std::vector<long>* idx) override {
    std::vector<long> r;
    Vec v;
    if (idx)
      v = d.toVector(indexer(*idx));
    else
      v = d.toVector();
    for (Eigen::Index i = 0; i < v.size(); i++) r.push_back(Conv<T>::to(v[i]));
    return r;
  }
  std::vector<long> byIndex() override {
    std::vector<long> r;
    for (E e : elems()) r.push_back(Conv<T>::to(d[e.getIndex()]));
    return r;
  }
  static Vec vec(const std::vector<long>& v) {
    Vec x(v.size());
    for (size_t i = 0; i < v.size(); i++) x[i] = Conv<T>::from(v[i]);
    return x;
  }
  void fromVec(const std::vector<long>& v, const std::vector<long>* idx) override {
    if (idx)
      d.fromVector(vec(v), indexer(*idx));
    else
      d.fromVector(vec(v));
  }
  Box* copy() override {
    auto* b = new BoxT<E, T>(d); // copy constructor
    b->k = k;
    b->ty = ty;
    return b;
  }
  Box* move() override {
    auto* b = new BoxT<E, T>(std::move(d)); // move constructor
    b->k = k;
    b->ty = ty;
    return b;
  }
  void assign(Box* o, bool mv) override {
    if (mv)
      d = std::move(((BoxT<E, T>*)o)->d);
    else
      d = ((BoxT<E, T>*)o)->d;
  }
  void swap(Box* o) override { std::swap(d, ((BoxT<E, T>*)o)->d); }
  Box* reinterp(int s) override { return mk(d.reinterpretTo(*meshOf<E>(s)), k, ty); }
  Box* arith(const std::string& op, Box* o, long sc, int form) override {
    return Arith<E, T>::bin(d, op, o ? &((BoxT<E, T>*)o)->d : nullptr, sc, form, k);
  }
  void inplace(const std::string& op, Box* o, long sc) override { Arith<E, T>::inp(d, op, o ? &((BoxT<E, T>*)o)->d : nullptr, sc); }
};

template <class E, class T>
Box* makeT(int slot, long def, int form, const std::vector<long>& v, const std::string& k, const std::string& ty) {
  if (form == 0) return mk(MeshData<E, T>(*meshOf<E>(slot)), k, ty);
  if (form == 1) return mk(MeshData<E, T>(*meshOf<E>(slot), Conv<T>::from(def)), k, ty);
  if (form == 2) return mk(MeshData<E, T>(*meshOf<E>(slot), BoxT<E, T>::vec(v)), k, ty);
  if (form == 4) { // from a vector, through an indexer that reverses the order
    MeshData<E, size_t> I(*meshOf<E>(slot));
    size_t n = v.size(), j = 0;
    for (E e : iterateElements<E>(meshOf<E>(slot))) I[e] = n - 1 - j++;
    return mk(MeshData<E, T>(*meshOf<E>(slot), BoxT<E, T>::vec(v), I), k, ty);
  }
  return mk(MeshData<E, T>(), k, ty); // form 3: uninitialized
}
template <class T>
Box* makeK(const std::string& k, const std::string& ty, int slot, long def, int form, const std::vector<long>& v) {
  if (k == "V") return makeT<Vertex, T>(slot, def, form, v, k, ty);
  if (k == "H") return makeT<Halfedge, T>(slot, def, form, v, k, ty);
  if (k == "C") return makeT<Corner, T>(slot, def, form, v, k, ty);
  if (k == "E") return makeT<Edge, T>(slot, def, form, v, k, ty);
  if (k == "F") return makeT<Face, T>(slot, def, form, v, k, ty);
  if (k == "B") return makeT<BoundaryLoop, T>(slot, def, form, v, k, ty);
  return makeT<Point, T>(slot, def, form, v, k, ty);
}

static std::map<int, std::unique_ptr<Box>> D;

static J world() {
  J w;
  for (int s : {0, 1}) {
    J j;
    if (S.m[s]) {
      j = meshState(*S.m[s]);
      std::vector<long> c;
      for (Corner x : S.m[s]->corners()) c.push_back(eid(x));
      j("C", c)("live", true);
    } else
      j("live", false);
    w(s == 0 ? "m1" : "m2", j);
  }
  J p;
  std::vector<long> ps;
  if (S.pc)
    for (Point x : S.pc->points()) ps.push_back(eid(x));
  p("P", ps)("live", (bool)S.pc)("comp", S.pc ? S.pc->isCompressed() : true)("n", S.pc ? S.pc->nPoints() : 0);
  w("pc", p);
  std::vector<J> ds;
  for (auto& kv : D) {
    J c;
    c("i", kv.first)("k", kv.second->k)("ty", kv.second->ty);
    if (kv.second->moved)
      c("t", -1)("v", std::vector<long>());
    else
      c("t", kv.second->slot())("def", kv.second->def())("v", kv.second->values())("n", kv.second->size());
    ds.push_back(c);
  }
  w("d", ds);
  return w;
}

struct Ev {
  std::string op;
  std::vector<long> a;    // numeric arguments
  std::string k, ty, aop; // kind, type, arithmetic operator or mesh edit
  std::vector<long> v, idx;
};

static long step(Ev e, long parent) {
  J about_;
  about_("of", e.op)("a", e.a)("k", e.k)("aop", e.aop)("p", parent);
  std::string dd = about_.str();
  about(dd.substr(1, dd.size() - 2));
  cpuLimit(10);
  std::string x;
  std::vector<long> r, r2;
  std::vector<std::vector<long>> polys;
  try {
    auto& a = e.a;
    const std::string& o = e.op;
    if (o == "new") { // a: id, slot, def, form
      int f = (int)a[3];
      D[a[0]].reset(e.ty == "s" ? makeK<std::string>(e.k, e.ty, a[1], a[2], f, e.v) : makeK<int>(e.k, e.ty, a[1], a[2], f, e.v));
    } else if (o == "copyc")
      D[a[0]].reset(D[a[1]]->copy());
    else if (o == "movec") {
      D[a[0]].reset(D[a[1]]->move());
      D[a[1]]->moved = true;
    } else if (o == "assign") {
      D[a[0]]->assign(D[a[1]].get(), false);
      D[a[0]]->moved = false;
    } else if (o == "massign") {
      D[a[0]]->assign(D[a[1]].get(), true);
      D[a[0]]->moved = false;
      D[a[1]]->moved = true;
    } else if (o == "swap")
      D[a[0]]->swap(D[a[1]].get());
    else if (o == "del")
      D.erase((int)a[0]);
    else if (o == "clear") {
      D[a[0]]->clear();
      D[a[0]]->moved = false;
    } else if (o == "write")
      D[a[0]]->write((size_t)a[1] - 1, a[2]);
    else if (o == "fill")
      D[a[0]]->fill(a[1]);
    else if (o == "setdef")
      D[a[0]]->setDefault(a[1]);
    else if (o == "tovec") {
      r = D[a[0]]->toVec(e.idx.empty() ? nullptr : &e.idx);
      r2 = D[a[0]]->byIndex();
    } else if (o == "fromvec")
      D[a[0]]->fromVec(e.v, e.idx.empty() ? nullptr : &e.idx);
    else if (o == "arith") // a: dest, src, other (0: none), scalar, form
      D[a[0]].reset(D[a[1]]->arith(e.aop, a[2] ? D[a[2]].get() : nullptr, a[3], (int)a[4]));
    else if (o == "inplace")
      D[a[0]]->inplace(e.aop, a[1] ? D[a[1]].get() : nullptr, a[2]);
    else if (o == "reinterp")
      D[a[0]].reset(D[a[1]]->reinterp((int)a[2]));
    else if (o == "mesh") { // a: slot, edit arguments
      Op op;
      op.name = e.aop;
      op.a.assign(a.begin() + 1, a.end());
      OpResult R;
      if (S.kind[a[0] - 1] == "surf" && e.aop == "compress")
        S.m[a[0] - 1]->compress();
      else if (S.kind[a[0] - 1] == "surf" && e.aop == "flip")
        R.r = {S.m[a[0] - 1]->flip(Edge(S.m[a[0] - 1].get(), (size_t)op.a[0] - 1), op.a[1] == 1)};
      else
        R = applyOp(static_cast<ManifoldSurfaceMesh&>(*S.m[a[0] - 1]), op);
      x = R.x;
      r = R.r;
    } else if (o == "cpmesh") { // a: how
      if (a[0] == 0)
        S.m[1] = static_cast<ManifoldSurfaceMesh&>(*S.m[0]).copy(), S.kind[1] = "man";
      else if (a[0] == 1)
        S.m[1] = S.m[0]->copyToSurfaceMesh(), S.kind[1] = "surf";
      else if (a[0] == 2)
        S.m[1] = S.m[0]->copy(), S.kind[1] = "surf";
      else
        S.m[1] = S.m[0]->toManifoldMesh(), S.kind[1] = "man";
    } else if (o == "polys") {
      for (auto& p : S.m[0]->getFaceVertexList()) {
        polys.push_back({});
        for (size_t i : p) polys.back().push_back((long)i);
      }
    } else if (o == "delmesh")
      S.m[a[0] - 1].reset();
    else if (o == "pcadd")
      r = {eid(S.pc->getNewPoint())};
    else if (o == "pcdel") {
      std::vector<Point> ps;
      for (Point p : S.pc->points()) ps.push_back(p);
      r = {eid(ps[a[0] - 1])};
      S.pc->deleteElement(ps[a[0] - 1]);
    } else if (o == "pccompress")
      S.pc->compress();
    else if (o == "pckill")
      S.pc.reset();
    else
      abort();
  } catch (const std::exception& ex) {
    x = std::string(ex.what()).substr(0, 60);
    if (x.empty()) x = "exception";
  }
  J d2;
  d2("of", "reading everything after " + e.op)("a", e.a)("k", e.k)("aop", e.aop)("p", parent);
  dd = d2.str();
  about(dd.substr(1, dd.size() - 2));
  J j;
  j("op", e.op)("p", parent)("a", e.a)("k", e.k)("ty", e.ty)("aop", e.aop)("v", e.v)("idx", e.idx)("x", x)("r", r)("r2", r2)(
      "polys", polys)("w", world());
  return emit(j);
}

static std::vector<long> randVals(Rng& g, size_t n) {
  std::vector<long> v;
  for (size_t i = 0; i < n; i++) v.push_back(g.range(1, 60));
  return v;
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long shard = A.num("shard", 0), budget = A.num("events", 1000), seed = A.num("seed", 1), len = A.num("len", 40);
  std::string focus = A.str("focus", ""); // C06, C07, C08
  auto seeds = seedMeshes();
  std::vector<std::string> small = {"tet", "tri", "quadtri", "pillow", "penta", "strip", "annulus", "annulus4q", "twodisk", "prism", "fan4", "pants", "cube"};
  for (long it = 0; nLines() < budget; it++) {
    Rng g((uint64_t)seed * 1000003 + shard * 7919 + it);
    std::string nm = g.pick(small);
    Polys P;
    for (auto& s : seeds)
      if (s.first == nm) P = s.second;
    D.clear();
    S.m[0].reset(new ManifoldSurfaceMesh(P));
    S.kind[0] = "man";
    S.m[1].reset();
    S.pc.reset(new Cloud(g.range(1, 4)));
    J j;
    j("op", "init")("src", nm)("x", "")("w", world());
    long p = emit(j);
    int nextId = 1;
    bool fresh = false; // mesh 2 still has the numbering of mesh 1
    bool freshConv = false, freshDense = false;
    std::vector<std::pair<std::string, int>> we = {{"flip", 6}, {"insVE", 8}, {"split", 8}, {"conn", 6}, {"insV", 10}, {"tri", 5},
                                                   {"collapse", 10}, {"rmE", 10}, {"rmV", 8}, {"rmF", 8}, {"sep", 12},
                                                   {"switch", 2}, {"compress", 14}};
    bool lifetimes = g.chance(focus == "C08" ? 60 : 15);
    bool usePc = g.chance(25);
    int wMesh = focus == "C08" ? 15 : 40, wCopy = focus == "C06" ? 10 : 2;
    std::vector<std::string> kinds = {"V", "H", "C", "E", "F", "B"};
    if (usePc) kinds = {"P", "P", "P", "V"};
    for (long k = 0; k < len; k++) {
      Ev e;
      // candidates
      std::vector<int> all, live, movedIds;
      for (auto& kv : D) {
        all.push_back(kv.first);
        if (kv.second->moved)
          movedIds.push_back(kv.first);
        else if (kv.second->slot() > 0)
          live.push_back(kv.first);
      }
      auto sameType = [&](int i) {
        std::vector<int> L;
        for (auto& kv : D)
          if (kv.second->k == D[i]->k && kv.second->ty == D[i]->ty && !kv.second->moved) L.push_back(kv.first);
        return L;
      };
      int roll = (int)g.below(100);
      if (D.size() < 3 && !(k > 10 && g.chance(50))) roll = 99;
      if (roll < wMesh) {
        if (usePc && S.pc && g.chance(80)) {
          int q = (int)g.below(10);
          if (q < 5)
            e.op = "pcadd";
          else if (q < 8 && S.pc->nPoints() > 1) {
            e.op = "pcdel";
            e.a = {(long)g.range(1, (int)S.pc->nPoints())};
          } else
            e.op = "pccompress";
        } else {
          int s = S.m[1] && g.chance(50) ? 2 : 1;
          if (!S.m[s - 1]) continue;
          auto& mm = static_cast<ManifoldSurfaceMesh&>(*S.m[s - 1]);
          if (mm.nFaces() == 0) continue;
          Op op;
          if (S.kind[s - 1] == "surf") {
            op = randomOp(mm, g, {{"flip", 5}, {"compress", 2}}, 40);
          } else
            op = randomOp(mm, g, we, 24 + g.below(20));
          e.op = "mesh";
          e.aop = op.name;
          e.a = {s};
          e.a.insert(e.a.end(), op.a.begin(), op.a.end());
          fresh = freshConv = false;
        }
      } else if (roll < wMesh + wCopy && S.m[0] && !S.m[1]) {
        e.op = "cpmesh";
        e.a = {(long)g.below(4)};
        fresh = true;
        freshConv = e.a[0] == 3;
        freshDense = S.m[0]->isCompressed();
      } else if (roll < wMesh + 2 * wCopy && S.m[0]) {
        if (S.m[1] && (fresh || freshConv) && !live.empty()) {
          int i = g.pick(live);
          if (D[i]->slot() != 1) continue;
          if (freshConv && !(freshDense && (D[i]->k == "V" || D[i]->k == "F"))) continue;
          e.op = "reinterp";
          e.a = {nextId++, i, 2};
        } else
          e.op = "polys";
      } else if (roll < 52 && !live.empty()) {
        int i = g.pick(live);
        long n = (long)D[i]->values().size();
        int q = (int)g.below(10);
        if (q < 6 && n > 0) {
          e.op = "write";
          e.a = {i, (long)g.range(1, (int)n), g.range(1, 60)};
        } else if (q < 8) {
          e.op = "setdef";
          e.a = {i, g.range(0, 60)};
        } else {
          e.op = "fill";
          e.a = {i, g.range(0, 60)};
        }
      } else if (roll < 60 && !live.empty()) {
        int i = g.pick(live);
        size_t n = D[i]->values().size();
        if (g.chance(40)) { // an injective partial indexer
          std::vector<long> idx(n, -1);
          std::vector<size_t> perm;
          for (size_t u = 0; u < n; u++)
            if (!g.chance(25)) perm.push_back(u);
          for (size_t u = perm.size(); u > 1; u--) std::swap(perm[u - 1], perm[g.below(u)]);
          for (size_t u = 0; u < perm.size(); u++) idx[perm[u]] = (long)u;
          e.idx = idx;
          e.v = randVals(g, perm.size());
        } else
          e.v = randVals(g, n + (g.chance(15) ? 1 : 0));
        e.op = g.chance(50) ? "tovec" : "fromvec";
        if (e.op == "tovec") e.v.clear();
        if (D[i]->ty == "b") continue;
        e.a = {i};
      } else if (roll < 75 && !live.empty()) { // arithmetic
        int i = g.pick(live);
        if (D[i]->ty != "i" || (!S.m[0] && !S.m[1])) continue;
        std::vector<int> L;
        for (int o : sameType(i))
          if (D[o]->slot() == D[i]->slot()) L.push_back(o);
        int b = g.pick(L);
        bool neg = false, big = false, zb = false, za = false;
        for (long v : D[i]->values()) neg |= v < 0, big |= v > 2000 || v < -2000, za |= v == 0;
        bool bigSh = false;
        for (long v : D[b]->values()) neg |= v < 0, big |= v > 2000 || v < -2000, zb |= v == 0, bigSh |= v > 10;
        if (big) continue;
        static const std::vector<std::string> all_ops = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||"};
        std::string op = g.pick(all_ops);
        long sc = g.range(1, 9);
        int form = (int)g.below(3);
        if (neg && op != "+" && op != "-" && op != "*" && op != "&&" && op != "||") continue;
        bool un = g.chance(15);
        if (un) {
          op = g.chance(30) ? "not" : g.chance(50) ? "neg" : g.chance(50) ? "pos" : "inv";
          form = 1;
        }
        if (op == "/" || op == "%") {
          if (form == 0 && zb) continue;
          if (form == 2 && za) continue;
        }
        if (op == "<<" || op == ">>") {
          if (form == 0 && bigSh) continue;
          if (form == 2) {
            bool bs = false;
            for (long v : D[i]->values()) bs |= v > 10;
            if (bs) continue;
          }
        }
        e.aop = op;
        if (g.chance(35) && form != 2 && !un && op != "&&" && op != "||") {
          e.op = "inplace";
          e.a = {i, form == 0 ? b : 0, sc};
        } else {
          e.op = "arith";
          e.a = {nextId++, i, form == 0 ? b : 0, sc, form};
        }
      } else if (roll < 88 && !all.empty()) { // value operations
        int i = g.pick(all);
        auto L = sameType(i);
        int q = (int)g.below(10);
        if (q < 2 && !D[i]->moved) {
          e.op = "copyc";
          e.a = {nextId++, i};
        } else if (q < 4 && !D[i]->moved) {
          e.op = "movec";
          e.a = {nextId++, i};
        } else if (q < 6 && !L.empty()) {
          e.op = "assign";
          e.a = {i, g.pick(L)};
          if (D[i]->moved && e.a[1] == i) continue;
        } else if (q < 8 && !L.empty()) {
          e.op = "massign";
          e.a = {i, g.pick(L)};
          if (e.a[1] == i) continue;
        } else if (q < 9 && !L.empty() && !D[i]->moved) {
          e.op = "swap";
          e.a = {i, g.pick(L)};
          if (e.a[1] == i) continue;
        } else {
          e.op = g.chance(50) ? "clear" : "del";
          e.a = {i};
        }
      } else if (roll < 91 && lifetimes) {
        int q = (int)g.below(3);
        if (q == 0 && S.m[1]) {
          e.op = "delmesh";
          e.a = {2};
        } else if (q == 1 && S.m[0] && k > len / 2) {
          e.op = "delmesh";
          e.a = {1};
        } else if (q == 2 && S.pc && k > len / 2)
          e.op = "pckill";
        else
          continue;
      } else if (D.size() < 7) {
        e.op = "new";
        e.k = g.pick(kinds);
        int s = e.k == "P" ? 3 : (S.m[1] && g.chance(40)) ? 2 : 1;
        if (s == 3 ? !S.pc : !S.m[s - 1]) continue;
        e.ty = g.chance(25) ? "s" : "i";
        int form = (int)g.below(6);
        if (form > 4) form = 1;
        if (form == 3 && g.chance(70)) form = 1;
        if (form == 2 || form == 4) {
          size_t n = 0;
          if (s == 3)
            n = S.pc->nPoints();
          else {
            auto& m = *S.m[s - 1];
            n = e.k == "V"   ? m.nVertices()
                : e.k == "H" ? m.nHalfedges()
                : e.k == "C" ? m.nCorners()
                : e.k == "E" ? m.nEdges()
                : e.k == "F" ? m.nFaces()
                             : m.nBoundaryLoops();
          }
          e.v = randVals(g, n);
        }
        e.a = {nextId++, s, g.range(1, 60), form};
      } else {
        e.op = "del";
        e.a = {g.pick(all)};
      }
      if (e.op.empty()) continue;
      p = step(e, p);
    }
    // containers and meshes go away in a random order
    about("\"of\":\"destruction at the end\",\"p\":" + std::to_string(p));
    while (!D.empty() || S.m[0] || S.m[1] || S.pc) {
      int q = (int)g.below(4);
      if (q == 0 && S.m[0]) S.m[0].reset();
      if (q == 1 && S.m[1]) S.m[1].reset();
      if (q == 2 && S.pc) S.pc.reset();
      if (q == 3 && !D.empty()) {
        auto itD = D.begin();
        std::advance(itD, g.below(D.size()));
        D.erase(itD);
      }
    }
  }
  vt::done();
  return 0;
}
