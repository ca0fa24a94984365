// C03: usage lookup == brute-force scan over ownership
#include "h.h"
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <algorithm>
using Gen = GenericRegulatoryElement;
template <typename V> std::vector<Id> idv(const V& v) { std::vector<Id> r; for (auto& e : v) r.push_back(traits::getId(e)); std::sort(r.begin(), r.end()); return r; }
static std::vector<Id> uniq(std::vector<Id> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
#define SAME(a, b, m) CHECK((a) == (b), m)
extern "C" void sym_harness() {
  const int mode = PARAM("mode", 0);
  Points3d p;
  for (int i = 0; i < 3; i++) p.emplace_back(1 + i, i, i * i, 0);
  LineStrings3d l;
  int idx[4][2];
  for (int k = 0; k < 4; k++) {
    idx[k][0] = mode == 0 && k < 3 ? sym_int("first", 0, 2) : k % 3;
    idx[k][1] = mode == 0 && k < 3 ? sym_int("second", 0, 2) : (k + 1) % 3;
    l.emplace_back(10 + k, Points3d{p[idx[k][0]], p[idx[k][1]]});
  }
  l[3].push_back(p[2]);
  auto pick = [&](const char* n, int hi) { int c = sym_int(n, 0, hi); return c & 1 ? l[c / 2].invert() : l[c / 2]; };
  Lanelet A(20, mode == 1 ? pick("aleft", 5) : l[0], mode == 1 ? pick("aright", 5) : l[1]);
  Lanelet B(21, mode == 1 ? pick("bleft", 3) : l[1].invert(), l[2]);
  InnerBounds holes;
  LineStrings3d outer{mode == 2 ? pick("outer", 5) : l[2]};
  int nh = mode == 2 ? sym_int("holes", 0, 2) : 0;
  if (nh < 2) outer.push_back(mode == 2 ? pick("outer", 5) : l[3]);
  for (int i = 0; i < nh; i++) holes.push_back(LineStrings3d{pick("inner", 5)});
  if (nh == 2 && sym_bool("longer hole")) { holes.back().push_back(l[3]); }
  Area ar(30, outer, holes);
  Area ar2(31, LineStrings3d{l[3].invert()});  // shares a rule and a line string with the other area
  Polygon3d pg(40, Points3d{p[0], p[2]});
  std::vector<std::shared_ptr<Gen>> R{std::make_shared<Gen>(50), std::make_shared<Gen>(51)};
  bool useA[2] = {}, useB[2] = {}, useAr[2] = {}, ref[2][5] = {};
  if (mode == 3) {
    for (int k = 0; k < 2; k++) {
      int at = sym_int("attach", 0, k ? 3 : 7), rf = sym_int("params", 0, k ? 3 : 31);
      if ((useA[k] = at & 1)) A.addRegulatoryElement(R[k]);
      if ((useB[k] = at & 2)) B.addRegulatoryElement(R[k]);
      if ((useAr[k] = at & 4)) ar.addRegulatoryElement(R[k]);
      if (at & 2) ar2.addRegulatoryElement(R[k]);
      if ((ref[k][0] = rf & 1)) R[k]->addParameter("x", A);
      if ((ref[k][1] = rf & 2)) R[k]->addParameter("x", p[0]);
      if ((ref[k][2] = rf & 4)) R[k]->addParameter("y", ar);
      if ((ref[k][3] = rf & 8)) R[k]->addParameter("z", l[3]);
      if ((ref[k][4] = rf & 16)) R[k]->addParameter("x", pg);
    }
  }
  std::shared_ptr<LaneletMap> mp;
  bool factory = sym_bool("factory");
  if (factory) mp = utils::createMap(Lanelets{A, B}, Areas{ar, ar2});
  else {
    mp = std::make_shared<LaneletMap>();
    if (mode == 3) {  // elements without id get one on the way in; rules may come first
      A.setId(InvalId); B.setId(InvalId); ar.setId(InvalId); pg.setId(InvalId); l[3].setId(InvalId); p[0].setId(InvalId);
      for (auto& r : R) r->setId(InvalId);
      if (!useB[1]) for (auto& r : R) mp->add(RegulatoryElementPtr(r));
    }
    mp->add(A); mp->add(B); mp->add(ar); mp->add(ar2);
  }
  LaneletMap& m = *mp;
  const LaneletMap& cm = *mp;
  m.add(pg);
  m.add(l[3]);
  for (auto& r : R) m.add(RegulatoryElementPtr(r));
  LineStrings3d inMap; for (auto& x : l) if (m.lineStringLayer.exists(x.id())) inMap.push_back(x);
  // points -> line strings, polygons
  for (auto& q : p) {
    std::vector<Id> want, wantLl, wantAr;
    auto hasP = [&](const ConstLineString3d& x) { for (auto& e : x) if (e == q) return true; return false; };
    for (auto& x : inMap) if (hasP(x)) want.push_back(x.id());
    SAME(uniq(idv(m.lineStringLayer.findUsages(q))), uniq(want), "line strings using a point");
    SAME(uniq(idv(cm.lineStringLayer.findUsages(q))), uniq(want), "line strings using a point (const)");
    SAME(idv(utils::findUsages(cm.lineStringLayer, q.id())), uniq(want), "line strings using a point, by id");
    bool inPg = q.id() != 2;
    SAME(idv(m.polygonLayer.findUsages(q)).size(), inPg ? 1u : 0u, "polygons using a point");
    SAME(idv(utils::findUsages(cm.polygonLayer, q.id())).size(), inPg ? 1u : 0u, "polygons using a point, by id");
    if (mode <= 1) {
      for (auto& x : {A, B}) if (hasP(x.leftBound()) || hasP(x.rightBound())) wantLl.push_back(x.id());
      SAME(idv(utils::findUsagesInLanelets(m, q)), uniq(wantLl), "lanelets whose boundary contains the point, each once");
      SAME(idv(utils::findUsages(cm.laneletLayer, q.id())), uniq(wantLl), "lanelets whose boundary contains the point, by id");
    }
    if (mode == 0 || mode == 2) {
      std::vector<Id> in;
      for (auto& a : {ar, ar2}) {
        bool has = false;
        for (auto& x : a.outerBound()) has |= hasP(x);
        bool outer = has;
        for (auto& i : a.innerBounds()) for (auto& x : i) has |= hasP(x);
        if (has) in.push_back(a.id());
        if (outer) wantAr.push_back(a.id());
      }
      std::sort(in.begin(), in.end());
      SAME(idv(utils::findUsagesInAreas(m, q)), in, "areas whose boundary contains the point, each once");
      for (auto& a : {ar, ar2}) SAME(utils::has(a, q.id()), std::count(wantAr.begin(), wantAr.end(), a.id()) > 0, "point of the outer boundary, by id");
      if (!in.empty()) REACH("area usage");
    }
    if (!want.empty()) REACH("point usage");
  }
  if (mode == 1 || mode == 2)
    for (auto& x0 : l) for (int inv = 0; inv < 2; inv++) {
      ConstLineString3d x = inv ? x0.invert() : x0;
      std::vector<Id> want;
      for (auto& q : {A, B}) {
        if (q.leftBound() == x || q.rightBound() == x) want.push_back(q.id());
      }
      SAME(uniq(idv(m.laneletLayer.findUsages(x))), uniq(want), "lanelets using a line string in this orientation");
      SAME(uniq(idv(cm.laneletLayer.findUsages(x))), uniq(want), "lanelets using a line string in this orientation (const)");
      std::vector<Id> in;
      for (auto& a : {ar, ar2}) {
        for (auto& o : a.outerBound()) if (o == x) in.push_back(a.id());
        for (auto& i : a.innerBounds()) for (auto& o : i) if (o == x) in.push_back(a.id());
      }
      SAME(uniq(idv(m.areaLayer.findUsages(x))), uniq(in), "areas using a line string in this orientation");
      SAME(uniq(idv(cm.areaLayer.findUsages(x))), uniq(in), "areas using a line string in this orientation (const)");
      if (!want.empty()) REACH("bound usage");
    }
  if (mode == 3)
    for (int k = 0; k < 2; k++) {
      std::vector<Id> want;
      if (useA[k]) want.push_back(A.id());
      if (useB[k]) want.push_back(B.id());
      std::sort(want.begin(), want.end());
      SAME(idv(m.laneletLayer.findUsages(RegulatoryElementConstPtr(R[k]))), want, "lanelets using a rule");
      SAME(idv(cm.laneletLayer.findUsages(RegulatoryElementConstPtr(R[k]))), want, "lanelets using a rule (const)");
      SAME(idv(utils::findUsages(cm.laneletLayer, R[k]->id())), want, "lanelets using a rule, by id");
      SAME(m.areaLayer.findUsages(RegulatoryElementConstPtr(R[k])).size(), (useAr[k] ? 1u : 0u) + (useB[k] ? 1u : 0u), "areas using a rule");
      SAME(cm.areaLayer.findUsages(RegulatoryElementConstPtr(R[k])).size(), (useAr[k] ? 1u : 0u) + (useB[k] ? 1u : 0u), "areas using a rule (const)");
      if (!want.empty()) REACH("rule usage");
      auto rules = [&](int j) { std::vector<Id> w; for (int i = 0; i < 2; i++) if (ref[i][j]) w.push_back(R[i]->id()); std::sort(w.begin(), w.end()); return w; };
      auto got = [&](const ConstRuleParameter& q) { return idv(m.regulatoryElementLayer.findUsages(q)); };
      SAME(got(ConstWeakLanelet(A)), rules(0), "rules referring to a lanelet");
      SAME(got(ConstPoint3d(p[0])), rules(1), "rules referring to a point");
      SAME(got(ConstWeakArea(ar)), rules(2), "rules referring to an area");
      SAME(got(ConstLineString3d(l[3])), rules(3), "rules referring to a line string");
      SAME(got(ConstPolygon3d(pg)), rules(4), "rules referring to a polygon");
      SAME(idv(utils::findUsages(cm.regulatoryElementLayer, A.id())), rules(0), "rules referring to a lanelet, by id");
      SAME(idv(utils::findUsages(cm.regulatoryElementLayer, pg.id())), rules(4), "rules referring to a polygon, by id");
      SAME(idv(utils::findUsages(cm.regulatoryElementLayer, ar.id())), rules(2), "rules referring to an area, by id");
    }
}
