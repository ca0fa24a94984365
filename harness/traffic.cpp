// T01 lane changes, T02 passability, T03 speed limits against the documented tagging rules
#include "h.h"
#include <cmath>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <lanelet2_traffic_rules/GermanTrafficRules.h>
using namespace lanelet::traffic_rules;
using S = std::string;
namespace {
int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
template <typename... T> S choose(const char* n, T... v) { S a[] = {S(v)...}; return a[pick(n, 0, sizeof...(T) - 1)]; }
S participant(int hi = 8) { static const char* P[] = {"vehicle", "pedestrian", "bicycle", "vehicle:car", "vehicle:bus", "vehicle:taxi", "vehicle:emergency", "vehicle:car:electric", "vehicle:truck"}; return P[pick("participant", 0, hi)]; }
bool veh(const S& p) { return p == "vehicle" || p.rfind("vehicle:", 0) == 0; }
// participant `p` belongs to the group `g` of the documented hierarchy
bool within(const S& p, const S& g) { return p == g || p.rfind(g + ":", 0) == 0; }
Id nid = 1;
Point3d pt(double x, double y) { return Point3d(nid++, x, y, 0); }
struct Mark { S type, sub, both, left, right; };
int mark(const Mark& m, const S& p) {  // bit 0: left -> right, bit 1: right -> left
  if (!m.both.empty()) return m.both == "yes" ? 3 : 0;
  if (!m.left.empty() || !m.right.empty()) return (m.right == "yes" ? 1 : 0) | (m.left == "yes" ? 2 : 0);
  bool line = m.type == "line_thin" || m.type == "line_thick", curb = m.type == "curbstone" && m.sub == "low";
  int v = !line ? 0 : m.sub == "dashed" ? 3 : m.sub == "dashed_solid" ? 1 : m.sub == "solid_dashed" ? 2 : 0;
  if (veh(p)) return v;
  if (p == "pedestrian") return curb ? 3 : 0;
  return v ? v : curb ? 3 : 0;
}
void tag(LineString3d& l, const Mark& m) {
  if (!m.type.empty()) l.setAttribute(AttributeName::Type, m.type);
  if (!m.sub.empty()) l.attributes()["subtype"] = m.sub;
  if (!m.both.empty()) l.attributes()["lane_change"] = m.both;
  if (!m.left.empty()) l.attributes()["lane_change:left"] = m.left;
  if (!m.right.empty()) l.attributes()["lane_change:right"] = m.right;
}
Mark anyMark(bool full) {
  Mark m;
  m.type = choose("type", "", "line_thin", "line_thick", "curbstone", "virtual", "road_border", "bike_marking");
  m.sub = choose("subtype", "", "dashed", "dashed_solid", "solid_dashed", "solid", "solid_solid", "low", "high");
  if (!full) return m;
  int k = pick("lane change tags", 0, 8);
  if (k == 1 || k == 2 || k == 3) m.both = k == 1 ? "yes" : k == 2 ? "no" : "perhaps";
  if (k >= 4 && k <= 7) { m.left = k & 1 ? "yes" : "no"; m.right = k & 2 ? "yes" : "no"; }
  if (k == 8) { if (sym_bool("only left")) m.left = "yes"; else m.right = choose("right", "yes", "no"); }
  return m;
}
Lanelet lane(const LineString3d& l, const LineString3d& r) { return Lanelet(nid++, l, r); }
void allow(AttributeMap& a, const S& p, bool yes) { a["participant:" + p] = yes ? "yes" : "no"; }
const std::map<S, std::vector<S>>& users() {
  static const std::map<S, std::vector<S>> m{{"", {"vehicle"}}, {"road", {"vehicle", "bicycle"}}, {"highway", {"vehicle"}}, {"play_street", {"vehicle", "bicycle", "pedestrian"}}, {"emergency_lane", {"vehicle:emergency"}}, {"bus_lane", {"vehicle:bus", "vehicle:emergency", "vehicle:taxi"}}, {"bicycle_lane", {"bicycle"}}, {"exit", {"vehicle", "bicycle", "pedestrian"}}, {"walkway", {"pedestrian"}}, {"shared_walkway", {"bicycle", "pedestrian"}}, {"crosswalk", {"pedestrian"}}, {"stairs", {"pedestrian"}}, {"parking", {}}, {"vegetation", {}}};
  return m;
}
bool usable(const S& sub, const S& p) { for (auto& g : users().at(sub)) if (within(p, g)) return true; return false; }
void laneChange() {
  S p = participant(4);
  Mark m = anyMark(true);
  auto rules = TrafficRulesFactory::create("de", p);
  Point3d a = pt(0, 0), b = pt(5, 0);
  LineString3d mid(nid++, Points3d{a, b}); tag(mid, m);
  bool inv = sym_bool("boundary stored against the driving direction");
  LineString3d bound = inv ? LineString3d(nid++, Points3d{b, a}) : mid;
  if (inv) { tag(bound, m); bound = bound.invert(); }
  LineString3d ll(nid++, Points3d{pt(0, 1), pt(5, 1)}), rr(nid++, Points3d{pt(0, -1), pt(5, -1)}); Mark d{"line_thin", "dashed", "", "", ""}; tag(ll, d); tag(rr, d);
  int can = mark(m, p); if (inv) can = (can & 1) << 1 | can >> 1;
  int forbid = pick("not passable", 0, 2);
  Lanelet L = lane(ll, bound), R = lane(bound, rr);
  for (Lanelet* x : {&L, &R}) { x->attributes()["one_way"] = "no"; x->attributes()["subtype"] = "road"; }
  allow(L.attributes(), p, forbid != 1); allow(R.attributes(), p, forbid != 2);
  if (forbid) can = 0;
  bool lr = can & 1, rl = can & 2;
  if (can == 3) REACH("both directions"); if (can == 1 || can == 2) REACH("one direction"); if (can == 0) REACH("never");
  CHECK(rules->canChangeLane(L, R) == lr, "lane change from left to right");
  CHECK(rules->canChangeLane(R, L) == rl, "lane change from right to left");
  CHECK(rules->canChangeLane(L.invert(), R.invert()) == lr && rules->canChangeLane(R.invert(), L.invert()) == rl, "lane change driving in the opposite direction");
  CHECK(!rules->canChangeLane(L, R.invert()) && !rules->canChangeLane(R.invert(), L) && !rules->canChangeLane(L, L), "no lane change into oncoming direction or itself");
  LineString3d copy(nid++, Points3d{a, b}); tag(copy, m);
  Lanelet O = lane(copy, rr); O.attributes() = R.attributes();
  CHECK(!rules->canChangeLane(L, O) && !rules->canChangeLane(O, L), "no lane change between lanelets without a common boundary");
  Lanelet W = lane(bound, rr); W.attributes() = R.attributes(); W.attributes()["one_way"] = "yes";
  CHECK(rules->canChangeLane(L, W) == lr && !rules->canChangeLane(L.invert(), W.invert()) && !rules->canChangeLane(W.invert(), L.invert()), "no lane change into or out of a lanelet against its direction");
}
void oneWay() {
  S p = participant();
  AttributeMap a; a["subtype"] = "road"; allow(a, p, true);
  S g = choose("one_way", "", "yes", "no", "unknown");
  std::map<S, S> spec;
  if (g.empty()) {
    for (const char* q : {"pedestrian", "bicycle"}) { S v = choose(q, "", "yes", "no"); if (!v.empty()) spec[q] = v; }
    if (sym_bool("all vehicles")) spec["vehicle"] = choose("vehicle", "yes", "no");
    else { for (const char* q : {"vehicle:car", "vehicle:bus"}) { S v = choose(q, "", "yes", "no"); if (!v.empty()) spec[q] = v; } }
  } else a["one_way"] = g;
  for (auto& s : spec) a["one_way:" + s.first] = s.second;
  bool oneway = p != "pedestrian";
  if (!g.empty() || !spec.empty()) { oneway = g != "no"; for (auto& s : spec) if (within(p, s.first)) oneway = s.second != "no"; }
  auto rules = TrafficRulesFactory::create("de", p);
  Lanelet L = lane(LineString3d(nid++, Points3d{pt(0, 1), pt(5, 1)}), LineString3d(nid++, Points3d{pt(0, 0), pt(5, 0)})); L.attributes() = a;
  if (oneway) REACH("one way"); else REACH("both ways");
  CHECK(rules->canPass(L), "a lanelet is passable in its own direction");
  CHECK(rules->canPass(L.invert()) == !oneway, "against its direction a lanelet is passable when it is not one-way for the participant");
  CHECK(rules->isOneWay(L) == oneway && rules->isOneWay(L.invert()) == oneway, "one-way");
}
void passable() {
  S p = participant();
  AttributeMap a;
  S sub = choose("subtype", "", "road", "highway", "play_street", "emergency_lane", "bus_lane", "bicycle_lane", "exit", "walkway", "shared_walkway", "crosswalk", "stairs", "parking", "vegetation");
  if (!sub.empty()) a["subtype"] = sub;
  S loc = choose("location", "", "urban", "nonurban"); if (!loc.empty()) a["location"] = loc;
  std::map<S, S> spec;
  int k = pick("overrides", 0, 5);
  if (k == 1) spec["vehicle"] = choose("vehicle", "yes", "no");
  if (k == 2) { spec["vehicle:car"] = choose("vehicle:car", "yes", "no"); if (sym_bool("bus")) spec["vehicle:bus"] = choose("vehicle:bus", "yes", "no"); }
  if (k == 3) spec["vehicle:car:electric"] = choose("electric", "yes", "no");
  if (k == 4) { spec["pedestrian"] = choose("pedestrian", "yes", "no"); if (sym_bool("taxi")) spec["vehicle:taxi"] = "yes"; }
  if (k == 5) { spec["bicycle"] = choose("bicycle", "yes", "no"); }
  for (auto& s : spec) a["participant:" + s.first] = s.second;
  bool ok = usable(sub, p);
  if (!spec.empty()) { ok = false; for (auto& s : spec) if (within(p, s.first)) ok = s.second == "yes"; }
  auto rules = TrafficRulesFactory::create("de", p);
  LineString3d l(nid++, Points3d{pt(0, 1), pt(5, 1)}), r(nid++, Points3d{pt(0, 0), pt(5, 0)});
  Lanelet L = lane(l, r); L.attributes() = a;
  Area A(nid++, LineStrings3d{l, LineString3d(nid++, Points3d{l.back(), r.back()}), r.invert(), LineString3d(nid++, Points3d{r.front(), l.front()})}); A.attributes() = a;
  if (ok && !spec.empty()) REACH("allowed by override"); if (!ok && usable(sub, p)) REACH("forbidden by override"); if (ok && spec.empty()) REACH("allowed by subtype");
  CHECK(rules->canPass(ConstLanelet(L)) == ok, "passability of a lanelet");
  CHECK(rules->canPass(ConstArea(A)) == (ok && !veh(p)), "passability of an area (never for vehicles)");
  CHECK(rules->participant() == p && rules->location() == "de", "rules know their participant and location");
}
void steps() {
  S p = choose("participant", "vehicle", "pedestrian", "bicycle");
  auto rules = TrafficRulesFactory::create("de", p);
  Mark m = anyMark(false);
  bool fromOk = sym_bool("from passable"), toOk = sym_bool("to passable"), inv = sym_bool("common line stored reversed");
  int cross = mark(m, p); if (m.type == "virtual") cross = 3; if (inv) cross = (cross & 1) << 1 | cross >> 1;
  // a: bottom left .. ; lanelet drives north from y=0 to y=1, bounds x=0 (left) and x=1 (right)
  Point3d a0 = pt(0, 0), a1 = pt(0, 1), b0 = pt(1, 0), b1 = pt(1, 1);
  auto ln = [&](Points3d q, bool marked) { LineString3d l; if (marked && inv) { std::reverse(q.begin(), q.end()); l = LineString3d(nid++, q); tag(l, m); return l.invert(); } l = LineString3d(nid++, q); if (marked) tag(l, m); return l; };
  int kind = pick("neighbour", 0, 6);
  LineString3d lb = ln({a0, a1}, kind == 2), rb = ln({b0, b1}, kind == 3);
  Lanelet L = lane(lb, rb); allow(L.attributes(), p, fromOk);
  bool rev = sym_bool("bidirectional"); if (rev) L.attributes()["one_way"] = "no"; else L.attributes()["one_way"] = "yes";
  bool area = p != "vehicle";
  if (kind < 2) {  // two lanelets
    Lanelet N = lane(LineString3d(nid++, Points3d{kind ? pt(0, 1) : a1, pt(0, 2)}), LineString3d(nid++, Points3d{b1, pt(1, 2)})); allow(N.attributes(), p, toOk); N.attributes()["one_way"] = rev ? "no" : "yes";
    bool ok = kind == 0 && fromOk && toOk; if (ok) REACH("follows");
    CHECK(rules->canPass(L, N) == ok, "driving on to the following lanelet");
    CHECK(!rules->canPass(N, L) && !rules->canPass(L, N.invert()) && !rules->canPass(L, L), "not to a lanelet that does not follow");
    CHECK(rules->canPass(N.invert(), L.invert()) == (ok && rev), "following lanelet in the opposite direction");
    return;
  }
  auto mkArea = [&](LineStrings3d o, bool ok) { Area A(nid++, o); allow(A.attributes(), p, ok); return A; };
  if (kind <= 5) {
    Area A; bool toRight = false, toLeft = false;
    if (kind == 2) { Point3d w = pt(-1, 0); A = mkArea({ln({w, pt(-1, 1), a1}, false), lb.invert(), ln({a0, w}, false)}, toOk); }
    else if (kind == 3) A = mkArea({rb, ln({b1, pt(2, 1), pt(2, 0), b0}, false)}, toOk);
    else if (kind == 4) A = mkArea({ln({a1, pt(0, 2), pt(1, 2), b1}, false), ln({b1, a1}, true)}, toOk);
    else if (kind == 5) A = mkArea({ln({b0, pt(1, -1), pt(0, -1), a0}, false), ln({a0, b0}, true)}, toOk);
    toRight = cross & 1; toLeft = cross & 2;
    bool in, out;  // leaving the lanelet, entering it
    if (kind == 2) { in = toRight; out = toLeft; }
    else if (kind == 3) { in = toLeft; out = toRight; }
    else { out = toRight; in = toLeft; }  // the lanelet lies left of the area's border line
    if (kind == 5) out = false;
    if (kind == 4) in = false;
    bool ok = fromOk && toOk && area;
    if (ok && out) REACH("into an area"); if (ok && in) REACH("out of an area");
    CHECK(rules->canPass(ConstLanelet(L), ConstArea(A)) == (ok && out), "from a lanelet to an area");
    CHECK(rules->canPass(ConstArea(A), ConstLanelet(L)) == (ok && in), "from an area to a lanelet");
    bool side = kind <= 3;
    bool out2 = side ? out : kind == 5 && toRight, in2 = side ? in : kind == 4 && toLeft;
    CHECK(rules->canPass(ConstLanelet(L.invert()), ConstArea(A)) == (ok && rev && out2), "from an inverted lanelet to an area");
    CHECK(rules->canPass(ConstArea(A), ConstLanelet(L.invert())) == (ok && rev && in2), "from an area to an inverted lanelet");
    return;
  }
  // two areas left and right of the line a0-a1
  LineString3d c = ln({a0, a1}, true);
  Area W = mkArea({ln({a0, pt(-1, 0), pt(-1, 1), a1}, false), c.invert()}, fromOk), E = mkArea({c, ln({a1, b1, b0, a0}, false)}, toOk);
  bool ok = fromOk && toOk && area;
  if (ok && cross) REACH("between areas");
  CHECK(rules->canPass(ConstArea(W), ConstArea(E)) == (ok && (cross & 1)), "from area to area, left to right");
  CHECK(rules->canPass(ConstArea(E), ConstArea(W)) == (ok && (cross & 2)), "from area to area, right to left");
  Area far = mkArea({ln({pt(0, 0), pt(0, 1), pt(1, 0)}, false), ln({pt(1, 0), pt(0, 0)}, false)}, true);
  CHECK(!rules->canPass(ConstArea(W), ConstArea(far)) && !rules->canPass(ConstArea(W), ConstArea(W)), "not to an area without a common border");
}
void speed() {
  using units::MPSQuantity; using units::KmHQuantity;
  S p = participant(4);
  AttributeMap a;
  static const struct { const char* t; double kmh; } V[] = {{"30", 30}, {"0", 0}, {"100 km/h", 100}, {"10 mph", 16.09344}, {"5 mps", 18}, {"much", -1}};
  double limit = -1; int mand = -1;
  int sel = pick("limit tags", 0, 4);
  bool tags = sel > 0;
  int rule = sel == 0 || sel == 1 ? pick("rule", 0, 4) : sel == 4 ? 1 : 0;
  S sub, loc;
  if (tags || rule) { sub = choose("subtype", "", "highway", "walkway"); if (!sub.empty()) loc = choose("location", "", "nonurban"); }
  else { sub = choose("subtype", "", "road", "highway", "play_street", "exit", "bus_lane", "walkway", "parking"); loc = choose("location", "", "urban", "nonurban", "private"); }
  if (!sub.empty()) a["subtype"] = sub;
  if (!loc.empty()) a["location"] = loc;
  if (sel) {
    limit = 0; mand = 1;
    if (sel & 1) { int v = pick("speed_limit", 0, 5); a["speed_limit"] = V[v].t; limit = std::max(V[v].kmh, 0.); }
    if (sel >= 2) {
      static const char* Q[] = {"vehicle", "vehicle:car", "pedestrian"};
      S q = Q[pick("group", 0, 2)]; int v = pick("group limit", 0, 5); a["speed_limit:" + q] = V[v].t;
      if (within(p, q) && V[v].kmh >= 0) limit = V[v].kmh;
    }
    if (sel != 4) {
      int mm = pick("mandatory", 0, 4);
      if (mm == 1 || mm == 2) { a["speed_limit_mandatory"] = mm == 1 ? "no" : "yes"; mand = mm == 2; }
      if (mm >= 3) { S q = mm == 3 ? "vehicle" : "pedestrian"; a["speed_limit_mandatory:" + q] = "no"; if (within(p, q)) mand = 0; }
    }
  }
  LineString3d l(nid++, Points3d{pt(0, 1), pt(5, 1)}), r(nid++, Points3d{pt(0, 0), pt(5, 0)});
  Lanelet L = lane(l, r);
  Area A(nid++, LineStrings3d{l, r.invert()});
  L.attributes() = a; A.attributes() = a;
  static const struct { const char* t; double kmh; } R[] = {{"", -1}, {"de274-60", 60}, {"de274_1", 30}, {"20 mph", 32.18688}, {"de274-130", 130}};
  if (rule) {
    RegulatoryElementPtr re;
    if (sym_bool("by sign")) { LineString3d s(nid++, Points3d{pt(9, 9), pt(9, 8)}); s.attributes()["subtype"] = R[rule].t; re = SpeedLimit::make(nid++, AttributeMap(), TrafficSignsWithType{{s}, R[rule].t}); }
    else re = SpeedLimit::make(nid++, AttributeMap(), S(R[rule].t));
    if (rule == 2) { auto yield = TrafficSign::make(nid++, AttributeMap(), TrafficSignsWithType{{LineString3d(nid++, Points3d{pt(7, 9), pt(7, 8)})}, "de205"}); L.addRegulatoryElement(yield); }
    L.addRegulatoryElement(re); A.addRegulatoryElement(re);
  }
  auto rules = TrafficRulesFactory::create("de", p);
  double want; int wm = 1;
  if (rule && veh(p)) { want = R[rule].kmh; REACH("by rule"); }
  else if (tags) { want = limit; wm = mand; REACH("by tag"); }
  else if (p == "pedestrian") { want = 5; REACH("pedestrian"); }
  else if (p == "bicycle") want = 20;
  else {
    S s = sub.empty() ? "road" : sub, o = loc.empty() ? "urban" : loc; bool u = o == "urban", n = o == "nonurban";
    want = 0;
    if (s == "road" || s == "bus_lane") want = u ? 50 : n ? 100 : 0;
    else if (s == "highway") { want = u || n ? 130 : 0; wm = u || n ? 0 : 1; }
    else if (s == "play_street") want = u || n ? 7 : 0;
    else if (s == "exit") want = u ? 50 : -1;  // the nonurban default of an exit is not documented
    if (o == "private") want = -1;
    REACH("by type");
  }
  for (SpeedLimitInformation i : {rules->speedLimit(ConstLanelet(L)), rules->speedLimit(ConstLanelet(L.invert())), rules->speedLimit(ConstArea(A))}) {
    double v = KmHQuantity(i.speedLimit).value();
    CHECK(std::isfinite(v) && v >= 0, "speed limit is finite and not negative");
    if (want >= 0) CHECK(std::fabs(v - want) < 1e-6, "speed limit");
    if (want > 0) CHECK(i.isMandatory == bool(wm), "mandatory or recommended");
  }
}
}  // namespace
extern "C" void sym_harness() {
  nid = 1;
  switch (PARAM("mode", 0)) { case 0: laneChange(); break; case 1: oneWay(); break; case 2: passable(); break; case 3: steps(); break; default: speed(); }
}
