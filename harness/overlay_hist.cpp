// Records common subdivisions of intrinsic triangulations and their input, taken along histories of edits, for specs/OverlayTrace.tla (C16).
#include "geometrycentral/surface/common_subdivision.h"
#include "geometrycentral/surface/transfer_functions.h"
#include "surfworld.h"
using namespace vt;

struct Over {
  SurfWorld w;
  long at = 0;
  void init() {
    L il;
    for (Edge e : w.in->edges()) il.push_back(mu(w.geo->edgeLengths[e]));
    J j = J()("op", "init");
    w.putInput(j);
    at = emit(j("il", il));
  }
  std::map<const CommonSubdivisionPoint*, long> ids;
  long id(const CommonSubdivisionPoint* p) {
    auto it = ids.find(p);
    return it == ids.end() ? 0 : it->second;
  }
  LL faces(CommonSubdivision& cs) {
    LL r;
    for (Face f : cs.mesh->faces()) {
      L c;
      for (Vertex v : f.adjacentVertices()) c.push_back(id(cs.sourcePoints[v]));
      r.push_back(c);
    }
    return r;
  }
  template <class D>
  L src(CommonSubdivision& cs, D& d) {
    L r;
    for (Face f : cs.mesh->faces()) r.push_back(d[f] == Face() ? 0 : (long)d[f].getIndex() + 1);
    return r;
  }
  // values at vertices of the subdivision, listed by point
  template <class V>
  L byPoint(CommonSubdivision& cs, V get) {
    L r(cs.subdivisionPoints.size(), 0);
    for (Vertex v : cs.mesh->vertices()) {
      long k = id(cs.sourcePoints[v]);
      if (k) r[k - 1] = mu(get(v));
    }
    return r;
  }
  void overlay(Rng& R) {
    std::string ss = J()("of", "overlay")("p", at)("kind", (int)w.integer).str();
    about(ss.substr(1, ss.size() - 2));
    cpuLimit(10);
    try {
      CommonSubdivision& cs = w.T->getCommonSubdivision();
      ManifoldSurfaceMesh& g = w.m();
      J j = J()("op", "overlay")("p", at)("b", w.mesh(g));
      ids.clear();
      LL pt, ca, cb;
      long n = 0;
      for (CommonSubdivisionPoint& p : cs.subdivisionPoints) {
        ids[&p] = ++n;
        bool ok = SurfWorld::validPoint(p.posA, *w.in) && SurfWorld::validPoint(p.posB, g);
        L a = ok ? SurfWorld::key(p.posA) : L{0, 0}, b = ok ? SurfWorld::key(p.posB) : L{0, 0};
        pt.push_back({(long)p.intersectionType + 1, a[0], a[1], b[0], b[1]});
        ca.push_back(ok ? SurfWorld::coords(p.posA) : L{}), cb.push_back(ok ? SurfWorld::coords(p.posB) : L{});
      }
      j("pt", pt)("ca", ca)("cb", cb);
      LL pa, pb, loc, lc;
      L ia, ib, bl;
      for (Edge e : w.in->edges()) {
        L l;
        for (auto* p : cs.pointsAlongA[e]) l.push_back(id(p));
        pa.push_back(l), ia.push_back((long)cs.intersectionsA(e));
      }
      for (Edge e : g.edges()) {
        L l;
        for (auto* p : cs.pointsAlongB[e]) l.push_back(id(p));
        pb.push_back(l), ib.push_back((long)cs.intersectionsB(e)), bl.push_back(mu(w.T->edgeLengths[e]));
      }
      for (Vertex v : g.vertices()) loc.push_back(SurfWorld::key(w.T->vertexLocations[v])), lc.push_back(SurfWorld::coords(w.T->vertexLocations[v]));
      j("pa", pa)("pb", pb)("ia", ia)("ib", ib)("bl", bl)("loc", loc)("lc", lc);
      // one halfedge's path, from either side
      Halfedge hA = w.in->edge(R.below(w.in->nEdges())).halfedge(), hB = g.edge(R.below(g.nEdges())).halfedge();
      LL qa, qb;
      if (R.range(0, 1)) hA = hA.twin();
      if (R.range(0, 1)) hB = hB.twin();
      for (SurfacePoint p : cs.getHalfedgePathAonB(hA)) qa.push_back(SurfWorld::key(p));
      for (SurfacePoint p : cs.getHalfedgePathBonA(hB)) qb.push_back(SurfWorld::key(p));
      auto side = [](Halfedge h) { return h == h.edge().halfedge() ? 1 : 2; };
      j("ea", hA.edge().getIndex() + 1)("da", side(hA))("qa", qa)("eb", hB.edge().getIndex() + 1)("db", side(hB))("qb", qb);
      j("cnt", L{(long)cs.nVertices(), (long)cs.nEdges(), (long)cs.nFaces()});
      LL sp;
      auto simple = cs.buildSimpleMesh();
      for (auto& f : simple->polygons) {
        L l;
        for (size_t x : f) l.push_back((long)x + 1);
        sp.push_back(l);
      }
      j("sp", sp);
      bool skip = R.range(0, 1) && !cs.mesh; // an earlier mesh of it has been triangulated
      cs.constructMesh(false, skip);
      ManifoldSurfaceMesh& c0 = *cs.mesh;
      j("poly", faces(cs))("sa", src(cs, cs.sourceFaceA))("sb", src(cs, cs.sourceFaceB));
      j("top", L{(long)c0.nVertices(), (long)c0.nEdges(), (long)c0.nFaces(), (long)c0.nBoundaryLoops(), (long)c0.nConnectedComponents()});
      if (R.range(0, 1))
        cs.triangulateMesh();
      else
        cs.constructMesh(true, false);
      ManifoldSurfaceMesh& c = *cs.mesh;
      j("tri", faces(cs))("ta", src(cs, cs.sourceFaceA))("tb", src(cs, cs.sourceFaceB));
      EdgeData<double> lA = cs.interpolateEdgeLengthsA(w.geo->edgeLengths), lB = cs.interpolateEdgeLengthsB(w.T->edgeLengths);
      LL xa, xb;
      L ar;
      for (Face f : c.faces()) {
        L a, b;
        std::vector<double> l;
        for (Edge e : f.adjacentEdges()) a.push_back(mu(lA[e])), b.push_back(mu(lB[e])), l.push_back(lA[e]);
        xa.push_back(a), xb.push_back(b), ar.push_back(l.size() == 3 ? mu(heronArea(l[0], l[1], l[2])) : -1);
      }
      j("xa", xa)("xb", xb)("ar", ar);
      L fa, fb;
      for (Face f : w.in->faces()) {
        auto h = f.halfedge();
        auto& q = w.geo->edgeLengths;
        fa.push_back(mu(heronArea(q[h.edge()], q[h.next().edge()], q[h.next().next().edge()])));
      }
      for (Face f : g.faces()) {
        auto h = f.halfedge();
        auto& q = w.T->edgeLengths;
        fb.push_back(mu(heronArea(q[h.edge()], q[h.next().edge()], q[h.next().next().edge()])));
      }
      j("fa", fa)("fb", fb);
      // data from either side
      VertexData<double> A(*w.in), B(g);
      L va, vb;
      bool same = R.range(0, 3) == 0;
      long k0 = R.range(-9, 9);
      for (Vertex v : w.in->vertices()) A[v] = same ? k0 : R.range(-9, 9), va.push_back((long)A[v]);
      for (Vertex v : g.vertices()) B[v] = same ? k0 : R.range(-9, 9), vb.push_back((long)B[v]);
      VertexData<double> IA = cs.interpolateAcrossA(A), IB = cs.interpolateAcrossB(B);
      VertexData<double> MA(c, cs.interpolationMatrixA() * A.toVector()), MB(c, cs.interpolationMatrixB() * B.toVector());
      j("va", va)("vb", vb);
      j("ua", byPoint(cs, [&](Vertex v) { return IA[v]; }))("ub", byPoint(cs, [&](Vertex v) { return IB[v]; }));
      j("ma", byPoint(cs, [&](Vertex v) { return MA[v]; }))("mb", byPoint(cs, [&](Vertex v) { return MB[v]; }));
      FaceData<long> FA(*w.in), FB(g);
      for (Face f : w.in->faces()) FA[f] = (long)f.getIndex() + 1;
      for (Face f : g.faces()) FB[f] = (long)f.getIndex() + 1;
      FaceData<long> GA = cs.copyFromA(FA), GB = cs.copyFromB(FB);
      L ga, gb;
      for (Face f : c.faces()) ga.push_back(GA[f]), gb.push_back(GB[f]);
      j("ga", ga)("gb", gb);
      // transfer between the two meshes: values along straight lines of a flat surface, or constants, come out as they are
      L want, got;
      {
        AttributeTransfer t(*w.T);
        VertexData<double> X(*w.in, 3), Y(g, 3);
        Vector3 dir{.3 + real(R), real(R) - 1.5, 0};
        if (!w.pos.empty() && R.range(0, 1)) {
          for (Vertex v : w.in->vertices()) X[v] = dot(dir, w.pos[v.getIndex()]);
          for (Vertex v : g.vertices()) Y[v] = dot(dir, w.flatPos(w.T->vertexLocations[v]));
        }
        for (TransferMethod m : {TransferMethod::Pointwise, TransferMethod::L2}) {
          VertexData<double> y = t.transferAtoB(X, m), x = t.transferBtoA(Y, m);
          for (Vertex v : g.vertices()) want.push_back(mu(Y[v])), got.push_back(mu(y[v]));
          for (Vertex v : w.in->vertices()) want.push_back(mu(X[v])), got.push_back(mu(x[v]));
        }
        // general data: pointwise transfer to the intrinsic triangulation takes the value there
        VertexData<double> y = t.transferAtoB(A, TransferMethod::Pointwise);
        L yv;
        for (Vertex v : g.vertices()) yv.push_back(mu(y[v]));
        j("yv", yv);
        // least squares: what is left over is orthogonal to the target's functions
        VertexData<double> z = t.transferAtoB(A, TransferMethod::L2), zb = t.transferBtoA(B, TransferMethod::L2);
        Vector<double> r = t.P_B.transpose() * t.M_CS_Galerkin * (t.P_A * A.toVector() - t.P_B * z.toVector());
        Vector<double> rb = t.P_A.transpose() * t.M_CS_Galerkin * (t.P_B * B.toVector() - t.P_A * zb.toVector());
        j("res", mu(std::max(r.cwiseAbs().maxCoeff(), rb.cwiseAbs().maxCoeff())));
      }
      j("want", want)("got", got);
      emit(j);
    } catch (std::exception& x) {
      emit(J()("op", "throw")("of", "overlay")("why", std::string(x.what()))("p", at)("kind", (int)w.integer));
    }
  }
};

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  int iters = (int)A.num("iters", 10), len = (int)A.num("len", 14);
  Rng R((uint64_t)A.num("seed", 1) * 15485863 + (uint64_t)A.num("shard", 0));
  for (int it = 0; it < iters; it++) {
    Over h;
    bool integer = R.range(0, 1);
    h.w.make(R, R.range(0, 2) == 0, integer);
    h.init();
    int kinds = R.range(0, 3); // 0: flips only, 1: + insertions in faces, 2,3: + splits of edges
    for (int k = 0; k < len; k++) {
      ManifoldSurfaceMesh& m = h.w.m();
      std::vector<Edge> es, se;
      for (Edge e : m.edges()) {
        es.push_back(e);
        if (e.halfedge().isInterior() && e.halfedge().twin().isInterior() && e.halfedge().face() == e.halfedge().twin().face()) continue;
        if (!integer && !e.isBoundary() && (h.w.T->checkEdgeOriginal(e) || h.w.onInput(e))) continue;
        se.push_back(e);
      }
      std::vector<Face> fs;
      for (Face f : m.faces()) fs.push_back(f);
      std::vector<Vertex> vs;
      for (Vertex v : m.vertices())
        if (v.getIndex() >= h.w.in->nVertices()) vs.push_back(v);
      int o = R.range(0, 9);
      about("\"of\":\"edit\"");
      cpuLimit(10);
      try {
        if (kinds >= 1 && o == 0 && vs.size() < 4) {
          Vector3 b{.15 + real(R), .15 + real(R), .15 + real(R)};
          h.w.T->insertVertex(SurfacePoint(R.pick(fs), b / (b.x + b.y + b.z)));
        } else if (kinds >= 1 && o == 1 && vs.size()) {
          if (h.w.T->removeInsertedVertex(R.pick(vs)) != Face()) m.compress();
        } else if (kinds >= 2 && o <= 3 && vs.size() < 4 && se.size()) {
          Edge e = R.pick(se);
          h.w.T->splitEdge(R.range(0, 1) ? e.halfedge() : e.halfedge().twin(), .15 + .7 * real(R));
        } else
          h.w.T->flipEdgeIfPossible(R.pick(es));
      } catch (std::exception& x) {
        break; // C15 looks at the edits themselves
      }
      if (R.range(0, 2) == 0) h.overlay(R);
    }
  }
  vt::done();
  _exit(0);
}
