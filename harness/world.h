// a small world of map elements with an explicit reference graph and the closure over it (independent oracle)
#pragma once
#include "h.h"
#include <algorithm>
#include <lanelet2_core/primitives/RegulatoryElement.h>
using Gen = GenericRegulatoryElement;
namespace {
enum { P0, P1, P2, P3, L0, L1, L2, CL, PG, LA, LB, AR, R0, R1, NN };
bool isP(int k) { return k <= P3; }
bool isL(int k) { return k >= L0 && k <= CL; }
struct World {
  std::vector<Point3d> p;
  std::vector<LineString3d> l;
  Polygon3d pg;
  std::vector<Lanelet> ll;
  Area ar;
  std::vector<std::shared_ptr<Gen>> r;
  std::vector<int> refs[NN];
  Id id(int k) {
    if (isP(k)) return p[k - P0].id();
    if (isL(k)) return l[k - L0].id();
    if (k == PG) return pg.id();
    if (k == LA || k == LB) return ll[k - LA].id();
    if (k == AR) return ar.id();
    return r[k - R0]->id();
  }
  template <typename M> void addTo(M& m, int k) {
    if (isP(k)) m.add(p[k - P0]);
    else if (isL(k)) m.add(l[k - L0]);
    else if (k == PG) m.add(pg);
    else if (k == LA || k == LB) m.add(ll[k - LA]);
    else if (k == AR) m.add(ar);
    else m.add(RegulatoryElementPtr(r[k - R0]));
  }
  void closure(int k, bool* in) {
    if (in[k]) return;
    in[k] = true;
    for (int o : refs[k]) closure(o, in);
  }
};
template <typename L> std::vector<Id> ids(L& layer) {
  std::vector<Id> r;
  for (auto& e : layer) r.push_back(traits::getId(e));
  std::sort(r.begin(), r.end());
  return r;
}
void compare(World& w, LaneletMapLayers& m, const bool* in) {
  size_t np = 0, nl = 0, npg = 0, nll = 0, nar = 0, nr = 0;
  for (int k = 0; k < NN; k++) {
    if (!in[k]) continue;
    Id i = w.id(k);
    CHECK(i != InvalId, "every element in the map has a valid id");
    if (isP(k)) { np++; CHECK(m.pointLayer.exists(i), "point present"); CHECK(m.pointLayer.get(i).constData() == w.p[k - P0].constData(), "point shares data"); CHECK(m.pointLayer.find(i) != m.pointLayer.end(), "find"); }
    else if (isL(k)) { nl++; CHECK(m.lineStringLayer.exists(i), "line string present"); CHECK(m.lineStringLayer.get(i).constData() == w.l[k - L0].constData(), "line string shares data"); }
    else if (k == PG) { npg++; CHECK(m.polygonLayer.exists(i), "polygon present"); CHECK(m.polygonLayer.get(i).constData() == w.pg.constData(), "polygon shares data"); }
    else if (k == LA || k == LB) { nll++; CHECK(m.laneletLayer.exists(i), "lanelet present"); CHECK(m.laneletLayer.get(i).constData() == w.ll[k - LA].constData(), "lanelet shares data"); }
    else if (k == AR) { nar++; CHECK(m.areaLayer.exists(i), "area present"); CHECK(m.areaLayer.get(i).constData() == w.ar.constData(), "area shares data"); }
    else { nr++; CHECK(m.regulatoryElementLayer.exists(i), "rule present"); CHECK(m.regulatoryElementLayer.get(i)->constData() == w.r[k - R0]->constData(), "rule shares data"); }
  }
  CHECK(m.pointLayer.size() == np, "nothing else in the point layer");
  CHECK(m.lineStringLayer.size() == nl, "nothing else in the line string layer");
  CHECK(m.polygonLayer.size() == npg, "nothing else in the polygon layer");
  CHECK(m.laneletLayer.size() == nll, "nothing else in the lanelet layer");
  CHECK(m.areaLayer.size() == nar, "nothing else in the area layer");
  CHECK(m.regulatoryElementLayer.size() == nr, "nothing else in the rule layer");
}
}  // namespace
inline void makeWorld(World& w, const Id* preset, int mode, bool small = false) {
  for (int k = 0; k < 4; k++) w.p.emplace_back(preset[k], k, k & 1, 0);
  int share = mode == 0 ? sym_int("shared_point", 0, 3) : 1;
  w.l.emplace_back(preset[L0], Points3d{w.p[0], w.p[1]});
  w.l.emplace_back(preset[L1], Points3d{w.p[share], w.p[2]});
  w.l.emplace_back(preset[L2], Points3d{w.p[3], w.p[0]});
  w.l.emplace_back(preset[CL], Points3d{w.p[0], w.p[3]});
  w.pg = Polygon3d(preset[PG], Points3d{w.p[1], w.p[3], w.p[2]});
  w.refs[L0] = {P0, P1}; w.refs[L1] = {P0 + share, P2}; w.refs[L2] = {P3, P0}; w.refs[CL] = {P0, P3}; w.refs[PG] = {P1, P3, P2};
  bool bi = mode == 1 && sym_bool("bound_inverted");
  w.ll.emplace_back(preset[LA], w.l[0], bi ? w.l[1].invert() : w.l[1]);
  w.ll.emplace_back(preset[LB], mode == 1 && sym_bool("share_bound") ? w.l[1] : w.l[2], w.l[0]);
  w.refs[LA] = {L0, L1}; w.refs[LB] = {w.ll[1].leftBound().id() == w.l[1].id() && w.ll[1].leftBound() == w.l[1] ? L1 : L2, L0};
  if (mode == 1 && sym_bool("centerline")) { w.ll[0].setCenterline(w.l[3]); w.refs[LA].push_back(CL); if (sym_bool("inverted view")) w.ll[0] = w.ll[0].invert(); }
  w.ar = Area(preset[AR], LineStrings3d{w.l[0]}, InnerBounds{LineStrings3d{w.l[2], w.l[3]}, LineStrings3d{w.l[1].invert()}});
  w.refs[AR] = {L0, L1, L2, CL};
  for (int k : {R0, R1}) w.r.push_back(std::make_shared<Gen>(preset[k]));
  if (mode == 2) {
    for (int k = 0; k < 2; k++) {
      auto& r = *w.r[k]; auto& rf = w.refs[R0 + k];
      int prim = sym_int("prim", 0, small ? (k == 0 ? 0 : 1) : k == 0 ? 3 : 1);
      if (prim == 1) { r.addParameter("a", w.p[3]); rf.push_back(P3); }
      if (prim == 2) { r.addParameter("a", w.l[2].invert()); rf.push_back(L2); }
      if (prim == 3) { r.addParameter("a", w.pg); rf.push_back(PG); }
      int la = sym_int("la", 0, small && k ? 1 : 3);
      if (la & 1) { r.addParameter("b", w.ll[k]); rf.push_back(LA + k); }
      if (la & 2) { r.addParameter("b", w.ar); rf.push_back(AR); }
      if (k == 1 && la == 0) { Lanelet gone(77, LineString3d(78), LineString3d(79)); r.addParameter("b", WeakLanelet(gone)); }
    }
    int at = sym_int("attach", 0, small ? 7 : 15);
    if (at & 1) { w.ll[0].addRegulatoryElement(w.r[0]); w.refs[LA].push_back(R0); }
    if (at & (small ? 16 : 2)) { w.ll[0].addRegulatoryElement(w.r[1]); w.refs[LA].push_back(R1); }
    if (at & 4) { w.ll[1].addRegulatoryElement(w.r[1]); w.refs[LB].push_back(R1); }
    if (at & (small ? 2 : 8)) { w.ar.addRegulatoryElement(w.r[0]); w.refs[AR].push_back(R0); }
  }
}
