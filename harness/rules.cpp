// C09: regulatory elements against a plain list model per role
#include "h.h"
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <lanelet2_core/Exceptions.h>
#include <algorithm>
namespace {
// one reference as the model sees it: kind (0 line string, 1 polygon, 2 lanelet), object id, inverted, gone (lanelet was destroyed)
struct E { int kind; Id id; bool inv; bool gone = false; bool operator==(const E& o) const { return kind == o.kind && id == o.id && inv == o.inv && !gone && !o.gone; } };
using L = std::vector<E>;
using Model = std::map<std::string, L>;
struct Ex : RuleParameterVisitor {
  L out; std::map<std::string, L> byRole;
  void put(E e) { out.push_back(e); byRole[role].push_back(e); }
  void operator()(const ConstLineString3d& l) override { put({0, l.id(), l.inverted()}); }
  void operator()(const ConstPolygon3d& p) override { put({1, p.id(), false}); }
  void operator()(const ConstWeakLanelet& l) override { if (l.expired()) put({2, 0, false, true}); else put({2, l.lock().id(), l.lock().inverted()}); }
  void operator()(const ConstPoint3d& p) override { put({3, p.id(), false}); }
  void operator()(const ConstWeakArea& a) override { put({4, a.expired() ? 0 : a.lock().id(), false, a.expired()}); }
};
bool same(const L& a, const L& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i]) && !(a[i].gone && b[i].gone)) return false;
  return true;
}
L alive(const L& l) { L r; for (auto& e : l) if (!e.gone) r.push_back(e); return r; }
L only(const L& l, int k) { L r; for (auto& e : l) if (e.kind == k && !e.gone) r.push_back(e); return r; }
E of(const ConstLineString3d& l) { return {0, l.id(), l.inverted()}; }
E of(const ConstPolygon3d& p) { return {1, p.id(), false}; }
E of(const ConstLanelet& l) { return {2, l.id(), l.inverted()}; }
E of(const ConstLineStringOrPolygon3d& x) { return x.isPolygon() ? of(*x.polygon()) : of(*x.lineString()); }
E of(const LineStringOrPolygon3d& x) { return x.isPolygon() ? of(ConstPolygon3d(*x.polygon())) : of(ConstLineString3d(*x.lineString())); }
template <typename V> L list(const V& v) { L r; for (auto& e : v) r.push_back(of(e)); return r; }
bool removeOne(L& l, const E& e) { auto it = std::find(l.begin(), l.end(), e); if (it == l.end()) return false; l.erase(it); return true; }
// the generic views: parameter map, visitor, typed getters, find, has
void generic(const RegulatoryElement& r, const Model& m) {
  auto params = r.getParameters();
  for (auto& p : params) {
    auto it = m.find(p.first);
    Ex ex; for (auto& e : p.second) boost::apply_visitor(ex, e);
    CHECK(same(ex.out, it == m.end() ? L() : it->second), "parameter list of a role");
  }
  Ex vis; r.applyVisitor(vis);
  auto roles = r.roles();
  CHECK(roles.size() == r.size() && roles.size() == params.size() && r.empty() == roles.empty(), "roles and size");
  for (auto& kv : m) {
    CHECK(same(vis.byRole[kv.first], kv.second), "visitor sees the parameters with their role");
    if (!kv.second.empty()) CHECK(std::find(roles.begin(), roles.end(), kv.first) != roles.end() && params.find(kv.first) != params.end(), "role present");
    CHECK(same(list(r.getParameters<ConstLineString3d>(kv.first)), only(kv.second, 0)), "line strings by role name");
    CHECK(same(list(r.getParameters<ConstPolygon3d>(kv.first)), only(kv.second, 1)), "polygons by role name");
    CHECK(same(list(r.getParameters<ConstLanelet>(kv.first)), only(kv.second, 2)), "lanelets by role name");
    for (auto& e : kv.second) {
      if (e.gone) continue;
      CHECK(utils::has(r, e.id), "has");
      if (e.kind == 0) { auto f = r.find<ConstLineString3d>(e.id); CHECK(f && f->id() == e.id, "find"); }
      if (e.kind == 1) { auto f = r.find<ConstPolygon3d>(e.id); CHECK(f && f->id() == e.id, "find"); }
    }
  }
  CHECK(!utils::has(r, 9999) && !r.find<ConstLineString3d>(9999) && !r.find<ConstPolygon3d>(9999), "nothing else found");
}
struct RuleAccess : RegulatoryElement { static const RuleParameterMap& get(const RegulatoryElement& r) { return r.constData()->parameters; } };
template <typename T> std::shared_ptr<T> rebuild(const T& r, const char* name) {
  return std::dynamic_pointer_cast<T>(RegulatoryElementFactory::create(name, r.id(), r.constData()->parameters, r.attributes()));
}
struct Pool {
  LineString3d l0{10, Points3d{Point3d(1, 0, 0), Point3d(2, 1, 0)}}, l1{11, Points3d{Point3d(3, 0, 1), Point3d(4, 1, 1)}}, s0{12, Points3d{}}, s1{13, Points3d{}};
  Polygon3d pg{14, Points3d{Point3d(5), Point3d(6), Point3d(7)}};
  std::vector<Lanelet> ll{Lanelet(20, LineString3d(30), LineString3d(31)), Lanelet(21, LineString3d(32), LineString3d(33)), Lanelet(22, LineString3d(34), LineString3d(35))};
  LineStringOrPolygon3d sign(int k) { return k == 0 ? LineStringOrPolygon3d(l0) : k == 1 ? LineStringOrPolygon3d(pg) : k == 2 ? LineStringOrPolygon3d(l0.invert()) : LineStringOrPolygon3d(l1); }
  LineString3d stop(int k) { return k == 0 ? s0 : k == 1 ? s1 : s0.invert(); }
  Lanelet lane(int k) { return k == 0 ? ll[0] : k == 1 ? ll[1] : ll[0].invert(); }
};
template <typename OptC> void stopIs(const OptC& o, const L& m) { CHECK(!!o == !m.empty(), "stop line present"); if (!!o) CHECK(of(ConstLineString3d(*o)) == m.front(), "stop line"); }
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0), len = PARAM("len", 3);
  Pool P;
  AttributeMap at{{"k", "v"}};
  if (mode == 0) {
    Model m;
    LineStringsOrPolygons3d init;
    int n = sym_int("initial lights", 1, 2);
    for (int i = 0; i < n; i++) { auto s = P.sign(sym_int("light", 0, 1 + i)); init.push_back(s); m["refers"].push_back(of(s)); }
    Optional<LineString3d> sl;
    if (sym_bool("initial stop line")) { sl = P.s0; m["ref_line"] = {of(ConstLineString3d(P.s0))}; }
    auto r = TrafficLight::make(1, at, init, sl);
    auto check = [&](TrafficLight& t) {
      const TrafficLight& c = t;
      CHECK(same(list(t.trafficLights()), m["refers"]) && same(list(c.trafficLights()), m["refers"]), "traffic lights");
      stopIs(t.stopLine(), m["ref_line"]); stopIs(c.stopLine(), m["ref_line"]);
      generic(t, m);
      CHECK(t.attribute(AttributeName::Subtype) == "traffic_light" && t.attribute("k") == "v", "attributes");
    };
    check(*r);
    for (int s = 0; s < len; s++) {
      int op = sym_int("op", 0, 3);
      if (op == 0) { auto x = P.sign(sym_int("sign", 0, 3)); r->addTrafficLight(x); m["refers"].push_back(of(x)); }
      else if (op == 1) { auto x = P.sign(sym_int("sign", 0, 3)); bool was = removeOne(m["refers"], of(x)); CHECK(r->removeTrafficLight(x) == was, "remove reports presence"); if (was) REACH("removed"); }
      else if (op == 2) { auto x = P.stop(sym_int("stop", 0, 2)); r->setStopLine(x); m["ref_line"] = {of(ConstLineString3d(x))}; }
      else { r->removeStopLine(); m["ref_line"].clear(); }
      check(*r);
    }
    bool threw = false;
    try { auto q = rebuild(*r, "traffic_light"); CHECK(!!q && q->id() == 1, "rebuilt"); check(*q); REACH("rebuilt"); } catch (InvalidInputError&) { threw = true; }
    CHECK(threw == m["refers"].empty(), "a traffic light without lights is rejected");
  } else if (mode == 1) {
    Model m;
    bool speed = sym_bool("speed limit");
    std::map<Id, std::string> type;
    TrafficSignsWithType ts, cs;
    int n = sym_int("initial signs", 0, 1);
    std::string own = "de301";
    at["sign_type"] = own;
    if (n) { ts.trafficSigns.push_back(P.sign(0)); ts.type = "de274"; m["refers"] = {of(P.sign(0))}; type[10] = "de274"; }
    if (sym_bool("initial cancelling")) { cs.trafficSigns.push_back(P.sign(1)); cs.type = "de278"; m["cancels"] = {of(P.sign(1))}; type[14] = "de278"; }
    LineStrings3d rl, clv;
    if (sym_bool("initial lines")) { rl = {P.s0}; clv = {P.s1}; m["ref_line"] = {of(ConstLineString3d(P.s0))}; m["cancel_line"] = {of(ConstLineString3d(P.s1))}; }
    std::shared_ptr<TrafficSign> r = speed ? std::shared_ptr<TrafficSign>(SpeedLimit::make(1, at, ts, cs, rl, clv)) : TrafficSign::make(1, at, ts, cs, rl, clv);
    auto check = [&](TrafficSign& t) {
      const TrafficSign& c = t;
      CHECK(same(list(t.trafficSigns()), m["refers"]) && same(list(c.trafficSigns()), m["refers"]), "traffic signs");
      CHECK(same(list(t.cancellingTrafficSigns()), m["cancels"]) && same(list(c.cancellingTrafficSigns()), m["cancels"]), "cancelling signs");
      CHECK(same(list(t.refLines()), m["ref_line"]) && same(list(c.refLines()), m["ref_line"]), "reference lines");
      CHECK(same(list(t.cancelLines()), m["cancel_line"]) && same(list(c.cancelLines()), m["cancel_line"]), "cancel lines");
      if (m["refers"].empty()) CHECK(t.type() == own, "type from the rule itself");
      else if (type.count(m["refers"][0].id)) CHECK(t.type() == type[m["refers"][0].id], "type from the sign");
      std::set<std::string> want; bool all = true;
      for (auto& e : m["cancels"]) { if (!type.count(e.id)) all = false; else want.insert(type[e.id]); }
      if (all) CHECK(t.cancelTypes() == std::vector<std::string>(want.begin(), want.end()), "cancel types");
      generic(t, m);
      CHECK(t.attribute(AttributeName::Subtype) == (speed ? "speed_limit" : "traffic_sign"), "attributes");
    };
    check(*r);
    for (int s = 0; s < len; s++) {
      int op = sym_int("op", 0, 7);
      if (op == 0) { auto x = P.sign(sym_int("sign", 0, 2)); r->addTrafficSign(x); m["refers"].push_back(of(x)); if (!type.count(of(x).id)) { type[of(x).id] = "de206"; x.applyVisitor([](auto p) { p.setAttribute(AttributeName::Subtype, "de206"); }); } }
      else if (op == 1) { auto x = P.sign(sym_int("sign", 0, 2)); bool was = removeOne(m["refers"], of(x)); CHECK(r->removeTrafficSign(x) == was, "remove reports presence"); if (was) REACH("removed"); }
      else if (op == 2) { auto x = P.sign(sym_int("sign", 0, 2)); TrafficSignsWithType w; w.trafficSigns = {x, P.sign(3)}; w.type = sym_bool("type") ? "de282" : "de278"; r->addCancellingTrafficSign(w); m["cancels"].push_back(of(x)); m["cancels"].push_back(of(P.sign(3))); type[of(x).id] = w.type; type[11] = w.type; }
      else if (op == 3) { auto x = P.sign(sym_int("sign", 0, 3)); bool was = removeOne(m["cancels"], of(x)); CHECK(r->removeCancellingTrafficSign(x) == was, "remove reports presence"); }
      else if (op == 4) { auto x = P.stop(sym_int("line", 0, 2)); r->addRefLine(x); m["ref_line"].push_back(of(ConstLineString3d(x))); }
      else if (op == 5) { auto x = P.stop(sym_int("line", 0, 2)); bool was = removeOne(m["ref_line"], of(ConstLineString3d(x))); CHECK(r->removeRefLine(x) == was, "remove reports presence"); }
      else if (op == 6) { auto x = P.stop(sym_int("line", 0, 2)); r->addCancellingRefLine(x); m["cancel_line"].push_back(of(ConstLineString3d(x))); }
      else { auto x = P.stop(sym_int("line", 0, 2)); bool was = removeOne(m["cancel_line"], of(ConstLineString3d(x))); CHECK(r->removeCancellingRefLine(x) == was, "remove reports presence"); }
      check(*r);
    }
    auto q = rebuild(*r, speed ? "speed_limit" : "traffic_sign");
    CHECK(!!q, "rebuilt"); check(*q); REACH("rebuilt");
  } else if (mode == 2) {
    Model m;
    Lanelets row, yl;
    int cfg = sym_int("initial", 0, 3);
    row.push_back(P.lane(cfg & 1 ? 2 : 0)); yl.push_back(P.lane(1)); if (cfg & 2) yl.push_back(P.lane(0));
    for (auto& l : row) m["right_of_way"].push_back(of(ConstLanelet(l)));
    for (auto& l : yl) m["yield"].push_back(of(ConstLanelet(l)));
    Optional<LineString3d> sl;
    if (sym_bool("initial stop line")) { sl = P.s0; m["ref_line"] = {of(ConstLineString3d(P.s0))}; }
    auto r = RightOfWay::make(1, at, row, yl, sl);
    row.clear(); yl.clear();
    auto check = [&](RightOfWay& t) {
      const RightOfWay& c = t;
      L a = alive(m["right_of_way"]), b = alive(m["yield"]);
      CHECK(same(list(t.rightOfWayLanelets()), a) && same(list(c.rightOfWayLanelets()), a), "right of way lanelets");
      CHECK(same(list(t.yieldLanelets()), b) && same(list(c.yieldLanelets()), b), "yield lanelets");
      stopIs(t.stopLine(), m["ref_line"]); stopIs(c.stopLine(), m["ref_line"]);
      for (int k = 0; k < 3; k++) {
        if (P.ll.size() < 3 && k == 1) continue;
        ConstLanelet l = P.lane(k); E e = of(l);
        bool isR = std::find(a.begin(), a.end(), e) != a.end(), isY = std::find(b.begin(), b.end(), e) != b.end();
        CHECK(t.getManeuver(l) == (isR ? ManeuverType::RightOfWay : isY ? ManeuverType::Yield : ManeuverType::Unknown), "manoeuvre");
      }
      CHECK(t.getManeuver(P.ll.back()) == ManeuverType::Unknown, "unrelated lanelet");
      generic(t, m);
    };
    check(*r);
    bool gone = false;
    for (int s = 0; s < len; s++) {
      int op = sym_int("op", 0, 6);
      int k = op < 4 ? sym_int("lanelet", 0, 2) : 0;
      if (op < 4 && gone && k == 1) continue;
      Lanelet x = op < 4 ? P.lane(k) : Lanelet(); E e = of(ConstLanelet(x));
      if (op == 0) { r->addRightOfWayLanelet(x); m["right_of_way"].push_back(e); }
      else if (op == 1) { r->addYieldLanelet(x); m["yield"].push_back(e); }
      else if (op == 2) { bool was = removeOne(m["right_of_way"], e); CHECK(r->removeRightOfWayLanelet(x) == was, "remove reports presence"); if (was) REACH("removed"); }
      else if (op == 3) { bool was = removeOne(m["yield"], e); CHECK(r->removeYieldLanelet(x) == was, "remove reports presence"); }
      else if (op == 4) { auto y = P.stop(sym_int("stop", 0, 2)); r->setStopLine(y); m["ref_line"] = {of(ConstLineString3d(y))}; }
      else if (op == 5) { r->removeStopLine(); m["ref_line"].clear(); }
      else if (!gone) { gone = true; P.ll.erase(P.ll.begin() + 1); for (auto& kv : m) for (auto& z : kv.second) if (z.kind == 2 && z.id == 21) z = {2, 0, false, true}; REACH("lanelet gone"); }
      check(*r);
    }
    bool a = alive(m["right_of_way"]).empty(), b = alive(m["yield"]).empty();
    if (m["right_of_way"].empty() == a && m["yield"].empty() == b) {
      bool threw = false;
      try { auto q = rebuild(*r, "right_of_way"); CHECK(!!q, "rebuilt"); check(*q); REACH("rebuilt"); } catch (InvalidInputError&) { threw = true; }
      CHECK(threw == (a || b), "a right of way without lanelets in both roles is rejected");
    }
  } else if (mode == 3) {
    struct W { E l; bool has; E s; };
    std::vector<W> w; L signs;
    LaneletsWithStopLines init;
    int n = sym_int("initial lanelets", 0, 2); bool withStop = n && sym_bool("with stop lines");
    for (int i = 0; i < n; i++) {
      LaneletWithStopLine x; x.lanelet = P.lane(1 - i); if (withStop) x.stopLine = P.stop(i);
      w.push_back({of(ConstLanelet(x.lanelet)), withStop, of(ConstLineString3d(P.stop(i)))}); init.push_back(x);
    }
    LineStringsOrPolygons3d sg;
    if (n != 1) { sg.push_back(P.sign(1)); signs.push_back(of(P.sign(1))); }
    auto r = AllWayStop::make(1, at, init, sg);
    init.clear();
    auto check = [&](AllWayStop& t) {
      const AllWayStop& c = t;
      L ls, st; Model m;
      for (auto& e : w) { ls.push_back(e.l); if (e.has) st.push_back(e.s); }
      m["yield"] = ls; m["ref_line"] = st; m["refers"] = signs;
      CHECK(same(list(t.lanelets()), alive(ls)) && same(list(c.lanelets()), alive(ls)), "lanelets");
      CHECK(same(list(t.stopLines()), st) && same(list(c.stopLines()), st), "stop lines");
      CHECK(same(list(t.trafficSigns()), signs) && same(list(c.trafficSigns()), signs), "signs");
      for (int k = 0; k < 3; k++) {
        if (P.ll.size() < 3 && k == 1) continue;
        ConstLanelet l = P.lane(k); E e = of(l);
        auto it = std::find_if(w.begin(), w.end(), [&](auto& x) { return x.l == e; });
        auto o = t.getStopLine(l); auto oc = c.getStopLine(l);
        bool want = it != w.end() && it->has;
        CHECK(!!o == want && !!oc == want, "stop line of a lanelet present");
        if (want) CHECK(of(ConstLineString3d(*o)) == it->s && of(*oc) == it->s, "stop line of a lanelet");
      }
      CHECK(!t.getStopLine(P.ll.back()), "unrelated lanelet");
      generic(t, m);
    };
    check(*r);
    bool gone = false;
    for (int s = 0; s < len; s++) {
      int op = sym_int("op", 0, 4);
      int k = op < 2 ? sym_int("lanelet", 0, 2) : 0;
      if (op < 2 && gone && k == 1) continue;
      if (op == 0) {
        LaneletWithStopLine x; x.lanelet = P.lane(k); bool h = sym_bool("stop line"); int sk = h ? sym_int("stop", 0, 1) : 0; if (h) x.stopLine = P.stop(sk);
        bool have = std::any_of(w.begin(), w.end(), [](auto& q) { return q.has; });
        bool bad = !w.empty() && have != h, threw = false;
        try { r->addLanelet(x); } catch (InvalidInputError&) { threw = true; }
        CHECK(threw == bad, "stop lines for all lanelets or for none");
        if (!threw) w.push_back({of(ConstLanelet(x.lanelet)), h, of(ConstLineString3d(P.stop(sk)))});
      } else if (op == 1) {
        auto x = P.lane(k); E e = of(ConstLanelet(x));
        auto it = std::find_if(w.begin(), w.end(), [&](auto& q) { return q.l == e; });
        bool was = it != w.end(); if (was) { w.erase(it); REACH("removed"); }
        CHECK(r->removeLanelet(x) == was, "remove reports presence");
      } else if (op == 2) { auto x = P.sign(sym_int("sign", 1, 2)); r->addTrafficSign(x); signs.push_back(of(x)); }
      else if (op == 3) { auto x = P.sign(sym_int("sign", 1, 2)); bool was = removeOne(signs, of(x)); CHECK(r->removeTrafficSign(x) == was, "remove reports presence"); }
      else if (!gone) { gone = true; P.ll.erase(P.ll.begin() + 1); for (auto& z : w) if (z.l.id == 21) z.l = {2, 0, false, true}; REACH("lanelet gone"); }
      check(*r);
    }
    auto q = rebuild(*r, "all_way_stop");
    CHECK(!!q, "rebuilt"); check(*q); REACH("rebuilt");
  } else {
    Model m;
    auto r = std::make_shared<GenericRegulatoryElement>(1, RuleParameterMap(), at);
    static const char* names[] = {"refers", "ref_line", "other"};
    static const RoleName known[] = {RoleName::Refers, RoleName::RefLine};
    bool names01 = sym_bool("by name");
    Area ar(40, LineStrings3d{P.l0}); Point3d pt(41, 0, 0, 0);
    for (int s = 0; s < len; s++) {
      int role = sym_int("role", 0, 2); bool byName = role == 2 || names01 == bool(s & 1);
      auto put = [&](auto prim, E e) { if (byName) r->addParameter(names[role], prim); else r->addParameter(known[role], prim); m[names[role]].push_back(e); };
      switch (sym_int("kind", 0, 6)) {
        case 0: put(P.l0, of(ConstLineString3d(P.l0))); break;
        case 1: put(P.l0.invert(), of(ConstLineString3d(P.l0.invert()))); break;
        case 2: put(P.pg, of(ConstPolygon3d(P.pg))); break;
        case 3: put(P.ll[0], of(ConstLanelet(P.ll[0]))); break;
        case 4: put(ar, {4, 40, false}); break;
        case 5: put(pt, {3, 41, false}); break;
        case 6: { m.erase(names[role]); r->parameters().erase(names[role]); break; }
      }
      generic(*r, m);
    }
    auto q = rebuild(*r, "regulatory_element");
    CHECK(!!q, "rebuilt"); generic(*q, m); REACH("rebuilt");
    for (int role = 0; role < 2; role++) CHECK(same(list(r->getParameters<ConstLineString3d>(known[role])), only(m[names[role]], 0)), "line strings by well-known role");
  }
}
