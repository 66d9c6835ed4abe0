// Everything the navigation interface reports about a mesh, for specs/Navigation.tla.
#pragma once
#include "meshlog.h"
namespace vt {
template <class R>
std::vector<long> ids(R range) {
  std::vector<long> r;
  for (auto x : range) {
    r.push_back(eid(x));
    if (r.size() > 2000) break;
  }
  return r;
}
inline long fid(Face f) {
  if (f.getIndex() == INVALID_IND) return 0;
  return f.isBoundaryLoop() ? -eid(f.asBoundaryLoop()) : eid(f);
}
template <class R>
std::vector<long> fids(R range) {
  std::vector<long> r;
  for (Face x : range) {
    r.push_back(fid(x));
    if (r.size() > 2000) break;
  }
  return r;
}
// general mesh state: as meshState, plus orientation flags ("tw" is the sibling)
inline J genState(SurfaceMesh& m) {
  J j = meshState(m);
  std::vector<bool> o;
  for (Halfedge h : m.halfedges()) {
    size_t i = h.getIndex();
    if (i > 100000) break;
    if (o.size() <= i) o.resize(i + 1, false);
    o[i] = h.orientation();
  }
  j("or", o)("man", m.usesImplicitTwin());
  return j;
}
inline J navState(SurfaceMesh& m, Rng& g) {
  bool man = m.usesImplicitTwin();
  typedef std::vector<long> L;
  std::vector<L> vO, vI, vV, vE, vF, vC, eH, eI, eF, eV, eO, eD, fH, fV, fE, fF, fC, bH, bV, bE, cn, cr;
  L vd, vfd, ed, fd, bd, hp, hpv, tip, tail, hc;
  std::vector<bool> vb, vm, vo, eb, em, eo, ft, fl, hi;
  for (Vertex v : m.vertices()) {
    vO.push_back(ids(v.outgoingHalfedges()));
    vI.push_back(ids(v.incomingHalfedges()));
    vV.push_back(ids(v.adjacentVertices()));
    vE.push_back(ids(v.adjacentEdges()));
    vF.push_back(fids(v.adjacentFaces()));
    L c;
    for (Corner x : v.adjacentCorners()) c.push_back(eid(x.halfedge()));
    vC.push_back(c);
    vd.push_back((long)v.degree());
    vfd.push_back((long)v.faceDegree());
    vb.push_back(v.isBoundary());
    vm.push_back(v.isManifold());
    vo.push_back(v.isManifoldAndOriented());
  }
  for (Edge e : m.edges()) {
    eH.push_back(ids(e.adjacentHalfedges()));
    eI.push_back(ids(e.adjacentInteriorHalfedges()));
    eF.push_back(fids(e.adjacentFaces()));
    auto vs = e.adjacentVertices();
    eV.push_back({eid(vs[0]), eid(vs[1]), eid(e.firstVertex()), eid(e.secondVertex())});
    eO.push_back({eid(e.otherVertex(vs[0])), eid(e.otherVertex(vs[1]))});
    L d;
    try {
      for (Halfedge h : e.diamondBoundary()) d.push_back(eid(h));
    } catch (const std::exception&) {
      d.clear();
    }
    eD.push_back(d);
    ed.push_back((long)e.degree());
    eb.push_back(e.isBoundary());
    em.push_back(e.isManifold());
    eo.push_back(e.isOriented());
  }
  for (Face f : m.faces()) {
    fH.push_back(ids(f.adjacentHalfedges()));
    fV.push_back(ids(f.adjacentVertices()));
    fE.push_back(ids(f.adjacentEdges()));
    fF.push_back(fids(f.adjacentFaces()));
    L c;
    for (Corner x : f.adjacentCorners()) c.push_back(eid(x.halfedge()));
    fC.push_back(c);
    fd.push_back((long)f.degree());
    ft.push_back(f.isTriangle());
    fl.push_back(f.isBoundaryLoop());
  }
  for (BoundaryLoop b : m.boundaryLoops()) {
    bH.push_back(ids(b.adjacentHalfedges()));
    bV.push_back(ids(b.adjacentVertices()));
    bE.push_back(ids(b.adjacentEdges()));
    bd.push_back((long)b.degree());
  }
  for (Halfedge h : m.halfedges()) {
    hp.push_back(eid(h.prevOrbitFace()));
    hpv.push_back(man ? eid(h.prevOrbitVertex()) : 0);
    tip.push_back(eid(h.tipVertex()));
    tail.push_back(eid(h.tailVertex()));
    hi.push_back(h.isInterior());
    hc.push_back(eid(h.corner().halfedge()));
  }
  for (Corner c : m.corners()) cr.push_back({eid(c.halfedge()), eid(c.vertex()), fid(c.face())});
  std::vector<Vertex> V;
  for (Vertex v : m.vertices()) V.push_back(v);
  for (int k = 0; k < 12 && !V.empty(); k++) {
    Vertex a = g.pick(V), b = g.pick(V);
    Edge e = m.connectingEdge(a, b);
    cn.push_back({eid(a), eid(b), e == Edge() ? 0 : eid(e)});
  }
  J j;
  j("vO", vO)("vI", vI)("vV", vV)("vE", vE)("vF", vF)("vC", vC)("vd", vd)("vfd", vfd)("vb", vb)("vm", vm)("vo", vo);
  j("eH", eH)("eI", eI)("eF", eF)("eV", eV)("eO", eO)("eD", eD)("ed", ed)("eb", eb)("em", em)("eo", eo);
  j("fH", fH)("fV", fV)("fE", fE)("fF", fF)("fC", fC)("fd", fd)("ft", ft)("fl", fl);
  j("bH", bH)("bV", bV)("bE", bE)("bd", bd)("hp", hp)("hpv", hpv)("tip", tip)("tail", tail)("hi", hi)("hc", hc)("cr", cr)("cn", cn);
  std::vector<bool> vms, ems, eos;
  {
    auto a = m.getVertexManifoldStatus();
    for (Vertex v : m.vertices()) vms.push_back(a[v]);
    auto b = m.getEdgeManifoldStatus();
    auto c = m.getEdgeOrientedStatus();
    for (Edge v : m.edges()) ems.push_back(b[v]), eos.push_back(c[v]);
    auto d = m.getVertexBoundaryStatus();
    std::vector<bool> vbs;
    for (Vertex v : m.vertices()) vbs.push_back(d[v]);
    j("vbs", vbs);
  }
  j("vms", vms)("ems", ems)("eos", eos)("isM", m.isManifold())("isE", m.isEdgeManifold())("isO", m.isOriented())(
      "isT", m.isTriangular())("hasB", m.hasBoundary());
  return j;
}
inline J genCounts(SurfaceMesh& m) {
  J c;
  c("nV", m.nVertices())("nE", m.nEdges())("nF", m.nFaces())("nB", m.nBoundaryLoops())("nH", m.nHalfedges())("nIH", m.nInteriorHalfedges())(
      "nEH", m.nExteriorHalfedges())("nC", m.nCorners())("nCC", m.nConnectedComponents())("comp", m.isCompressed());
  std::vector<long> a, b;
  for (Halfedge h : m.interiorHalfedges()) a.push_back(eid(h));
  for (Corner h : m.corners()) b.push_back(eid(h.halfedge()));
  c("iIH", a)("iC", b);
  return c;
}
} // namespace vt
