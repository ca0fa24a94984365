// I03: single primitives in one archive, in any order, with sharing and cycles
#include "mapcmp.h"
#include <lanelet2_io/io_handlers/Serialize.h>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <sstream>
namespace {
int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
void sameP(const ConstPoint3d& a, const ConstPoint3d& b) { CHECK(a.id() == b.id() && a.x() == b.x() && a.y() == b.y() && a.z() == b.z() && a.attributes() == b.attributes(), "point"); }
void sameL(const ConstLineString3d& a, const ConstLineString3d& b) {
  CHECK(a.id() == b.id() && a.inverted() == b.inverted() && a.size() == b.size() && a.attributes() == b.attributes(), "line string");
  for (size_t i = 0; i < a.size(); i++) sameP(a[i], b[i]);
}
void sameR(const RegulatoryElementConstPtr& a, const RegulatoryElementConstPtr& b) {
  CHECK(a->id() == b->id() && a->attributes() == b->attributes() && std::string(typeid(*a).name()) == typeid(*b).name(), "rule");
  auto p = a->getParameters(), q = b->getParameters();
  for (auto& kv : p) {
    if (kv.second.empty()) continue;
    auto it = q.find(kv.first);
    CHECK(it != q.end() && it->second.size() == kv.second.size(), "references of a rule");
    ParEx x, y;
    for (auto& e : kv.second) boost::apply_visitor(x, e);
    for (auto& e : it->second) boost::apply_visitor(y, e);
    for (size_t i = 0; i < x.out.size(); i++) CHECK(x.out[i].kind == y.out[i].kind && x.out[i].id == y.out[i].id && x.out[i].inv == y.out[i].inv, "reference of a rule");
  }
}
template <typename A, typename B> void sameRs(const A& a, const B& b) { CHECK(a.size() == b.size(), "rules"); for (size_t i = 0; i < a.size(); i++) { CHECK(!!b[i], "rule present"); sameR(a[i], b[i]); } }
void sameLl(const ConstLanelet& a, const ConstLanelet& b) {
  CHECK(a.id() == b.id() && a.inverted() == b.inverted() && a.attributes() == b.attributes(), "lanelet");
  sameL(a.leftBound(), b.leftBound()); sameL(a.rightBound(), b.rightBound());
  CHECK(a.hasCustomCenterline() == b.hasCustomCenterline(), "custom centre line");
  if (a.hasCustomCenterline()) sameL(a.centerline(), b.centerline());
  sameRs(a.regulatoryElements(), b.regulatoryElements());
}
void sameAr(const ConstArea& a, const ConstArea& b) {
  CHECK(a.id() == b.id() && a.attributes() == b.attributes() && a.outerBound().size() == b.outerBound().size() && a.innerBounds().size() == b.innerBounds().size(), "area");
  for (size_t i = 0; i < a.outerBound().size(); i++) sameL(a.outerBound()[i], b.outerBound()[i]);
  for (size_t i = 0; i < a.innerBounds().size(); i++) {
    CHECK(a.innerBounds()[i].size() == b.innerBounds()[i].size(), "hole");
    for (size_t k = 0; k < a.innerBounds()[i].size(); k++) sameL(a.innerBounds()[i][k], b.innerBounds()[i][k]);
  }
  sameRs(a.regulatoryElements(), b.regulatoryElements());
}
struct Elems {   // one slot per kind; whichever were stored
  std::vector<Point3d> p; std::vector<LineString3d> l; std::vector<Lanelet> ll; std::vector<Area> ar; std::vector<RegulatoryElementPtr> r; std::vector<Polygon3d> pg;
};
template <typename Out, typename In> void run(Elems& e, const std::vector<int>& order, const std::vector<bool>& inv) {
  std::stringstream ss;
  Elems b; b.p.resize(e.p.size()); b.l.resize(e.l.size()); b.ll.resize(e.ll.size()); b.ar.resize(e.ar.size()); b.r.resize(e.r.size()); b.pg.resize(e.pg.size());
  {
    Out oa(ss);
    for (size_t k = 0; k < order.size(); k++) switch (order[k]) {
      case 0: { Lanelet x = inv[k] ? e.ll[0].invert() : e.ll[0]; oa << x; break; }
      case 1: { Lanelet x = inv[k] ? e.ll[1].invert() : e.ll[1]; oa << x; break; }
      case 2: oa << e.ar[0]; break;
      case 3: oa << e.r[0]; break;
      case 4: oa << e.r[1]; break;
      case 5: { LineString3d x = inv[k] ? e.l[0].invert() : e.l[0]; oa << x; break; }
      case 6: oa << e.p[0]; break;
      case 7: oa << e.pg[0]; break;
    }
  }
  std::vector<Elems> held;   // keeps what was read alive
  In ia(ss);
  bool have[8] = {};
  std::vector<Lanelet> lls; std::vector<RegulatoryElementPtr> rs; std::vector<Area> ars;
  for (size_t k = 0; k < order.size(); k++) {
    int o = order[k];
    switch (o) {
      case 0: case 1: { Lanelet x; ia >> x; b.ll[o] = x; lls.push_back(x); break; }
      case 2: { Area x; ia >> x; b.ar[0] = x; ars.push_back(x); break; }
      case 3: case 4: ia >> b.r[o - 3]; break;   // the address must stay valid while reading
      case 5: { LineString3d x; ia >> x; b.l[0] = x; break; }
      case 6: { Point3d x; ia >> x; b.p[0] = x; break; }
      case 7: { Polygon3d x; ia >> x; b.pg[0] = x; break; }
    }
    have[o] = true;
  }
  for (size_t k = 0; k < order.size(); k++) {
    int o = order[k];
    switch (o) {
      case 0: case 1: sameLl(inv[k] ? e.ll[o].invert() : e.ll[o], b.ll[o]); break;
      case 2: sameAr(e.ar[0], b.ar[0]); break;
      case 3: case 4: CHECK(!!b.r[o - 3], "rule read"); sameR(e.r[o - 3], b.r[o - 3]); break;
      case 5: sameL(inv[k] ? e.l[0].invert() : e.l[0], b.l[0]); break;
      case 6: sameP(e.p[0], b.p[0]); break;
      case 7: CHECK(b.pg[0].id() == e.pg[0].id() && b.pg[0].size() == e.pg[0].size() && b.pg[0].attributes() == e.pg[0].attributes(), "polygon"); for (size_t i = 0; i < e.pg[0].size(); i++) sameP(e.pg[0][i], b.pg[0][i]); break;
    }
  }
  // sharing: the same element is read as one element
  auto boundOf = [](const Lanelet& l, Id id) -> const void* { return l.leftBound().id() == id ? (const void*)l.leftBound().constData().get() : l.rightBound().id() == id ? (const void*)l.rightBound().constData().get() : nullptr; };
  if (have[0] && have[1]) { CHECK(boundOf(b.ll[0], e.l[0].id()) == boundOf(b.ll[1], e.l[0].id()), "shared bound is one line string"); REACH("shared bound"); }
  if (have[0] && have[5]) CHECK(boundOf(b.ll[0], e.l[0].id()) == b.l[0].constData().get(), "bound and line string are one");
  if (have[5] && have[6]) CHECK(e.l[0].front().id() == b.p[0].id() && (b.l[0].inverted() ? b.l[0].back() : b.l[0].front()).constData() == b.p[0].constData(), "point of a line string is the point");
  auto ruleOf = [](const auto& x, Id id) { RegulatoryElementPtr q; for (auto& r : x.regulatoryElements()) if (r->id() == id) q = std::const_pointer_cast<RegulatoryElement>(std::const_pointer_cast<const RegulatoryElement>(r)); return q; };
  for (int k = 0; k < 2; k++) {
    Id id = e.r[k]->id();
    std::set<const void*> owners;
    for (int o = 0; o < 2; o++) if (have[o]) if (auto r = ruleOf(b.ll[o], id)) owners.insert(r.get());
    if (have[2]) if (auto r = ruleOf(b.ar[0], id)) owners.insert(r.get());
    if (have[3 + k]) owners.insert(b.r[k].get());
    CHECK(owners.size() <= 1, "shared rule is one rule");
    if (owners.empty()) continue;
    auto* r = (const RegulatoryElement*)*owners.begin();
    for (auto& kv : r->getParameters()) {
      ParEx x; for (auto& q : kv.second) boost::apply_visitor(x, q);
      for (auto& q : x.out) {
        for (int o = 0; o < 2; o++) if (q.kind == 3 && have[o] && q.id == e.ll[o].id()) { CHECK(q.data == b.ll[o].constData().get(), "cyclic reference leads back to the lanelet"); REACH("cycle"); }
        if (q.kind == 4 && have[2]) CHECK(q.data == b.ar[0].constData().get(), "cyclic reference leads back to the area");
        if (q.kind == 1 && have[5] && q.id == e.l[0].id()) CHECK(q.data == b.l[0].constData().get(), "referenced line string is the line string");
      }
    }
  }
  REACH("restored");
}
}  // namespace
void sym_harness() {
  Id id = 1;
  auto pt = [&](double x, double y) { return Point3d(id++, x, y, 0.1 * id, AttributeMap{{"p", std::to_string(id)}}); };
  Elems e;
  Point3d p0 = pt(0, 2), p1 = pt(5, 2);
  LineString3d mid(50, Points3d{p0, p1}, AttributeMap{{"type", "line_thin"}}), top(51, Points3d{pt(0, 4), pt(5, 4)}), low(52, Points3d{pt(0, 0), pt(3, 0), pt(5, 0)});
  const bool all = PARAM("all", 0);
  bool mi = all ? sym_bool("middle stored backwards") : true;
  LineString3d m = mi ? mid.invert() : mid;
  Lanelet l0(60, m, low, AttributeMap{{"subtype", "road"}}), l1(61, top, m);
  if (sym_bool("centre line")) { LineString3d c(53, Points3d{pt(0, 1), pt(5, 1)}); l0.setCenterline(!all || sym_bool("against") ? c.invert() : c); }
  LineString3d a1(54, Points3d{p1, pt(9, 4), pt(9, 1)}), h(55, Points3d{pt(6, 2), pt(7, 2), pt(7, 2.5)});
  LineString3d a2(56, Points3d{a1.back(), p1});
  Area ar(62, {a1, a2}, {{h}}, AttributeMap{{"subtype", "parking"}});
  Polygon3d pg(63, Points3d{p0, p1, a1.back()}, AttributeMap{{"q", ""}});
  auto g0 = std::make_shared<GenericRegulatoryElement>(70, RuleParameterMap(), AttributeMap{{"subtype", GenericRegulatoryElement::RuleName}});
  int par = pick("references of the first rule", 0, 7);
  if (par & 1) g0->addParameter("refers", l0.invert());
  if (par & 2) g0->addParameter("refers", ar);
  if (par & 4) { g0->addParameter("x", m); g0->addParameter("x", pg); g0->addParameter("refers", l1); }
  RegulatoryElementPtr r1 = sym_bool("right of way") ? RegulatoryElementPtr(RightOfWay::make(71, {}, Lanelets{l0}, Lanelets{l1}, mid)) : RegulatoryElementPtr(TrafficLight::make(71, {}, {low}, mid));
  int at = pick("attached", 0, 7);
  if (at & 1) { l0.addRegulatoryElement(g0); l0.addRegulatoryElement(r1); }
  if (at & 2) { l1.addRegulatoryElement(r1); l1.addRegulatoryElement(g0); }
  if (at & 4) ar.addRegulatoryElement(g0);
  e.p = {p0}; e.l = {mid}; e.ll = {l0, l1}; e.ar = {ar}; e.r = {g0, r1}; e.pg = {pg};
  int n = PARAM("n", 2);
  std::vector<int> order; std::vector<bool> inv;
  for (int k = 0; k < n; k++) {
    int o = pick("element", 0, 7);
    ASSUME(std::find(order.begin(), order.end(), o) == order.end());
    order.push_back(o); inv.push_back((o < 2 || o == 5) && sym_bool("inverted"));
  }
  if (PARAM("text", 0)) run<boost::archive::text_oarchive, boost::archive::text_iarchive>(e, order, inv);
  else run<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(e, order, inv);
}
