// V01: the validators against independent definitions of the defects they look for
#include "geo.h"
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <lanelet2_validation/Cli.h>
#include <lanelet2_validation/Validation.h>
#include <lanelet2_validation/ValidatorFactory.h>
#include <cstring>
namespace {
using namespace validation;
using S = std::string; using SS = std::vector<S>;
int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
const S& of(const char* n, const SS& v) { return v[pick(n, 0, int(v.size()) - 1)]; }
bool in(const S& s, const SS& v) { for (auto& x : v) if (x == s) return true; return false; }
bool starts(const S& s, const S& p) { return s.substr(0, p.size()) == p; }
struct Iss { S check; Severity sev; validation::Primitive prim; Id id; S text; };
std::vector<Iss> flat(const std::vector<DetectedIssues>& d) {
  std::vector<Iss> r;
  for (auto& c : d) {
    CHECK(!c.issues.empty(), "checks without issues are not listed");
    for (auto& i : c.issues) r.push_back({c.checkName, i.severity, i.primitive, i.id, i.message});
  }
  return r;
}
int count(const std::vector<Iss>& v, const S& check, validation::Primitive p, Id id, Severity sev = Severity::Warning, const S& text = "") {
  int n = 0;
  for (auto& i : v) if (i.check == check && i.prim == p && i.id == id && i.sev == sev && i.text.find(text) != S::npos) n++;
  return n;
}
using VP = validation::Primitive;
// --- the tag tables of the format (documentation)
const SS lsTypes{"arrow", "bike_marking", "bump", "curbstone", "door", "fence", "gate", "guard_rail", "jersey_barrier", "keepout", "lift_gate", "line_thick", "line_thin", "pedestrian_marking", "rail", "road_border", "stop_line", "symbol", "traffic_light", "traffic_sign", "trajectory", "virtual", "visualization", "wall", "zebra_marking", "zig-zag"};
const SS llSubtypes{"bicycle_lane", "bus_lane", "crosswalk", "emergency_lane", "highway", "play_street", "rail", "road", "shared_walkway", "stairs", "walkway"};
const SS arSubtypes{"bicycle_lane", "building", "bus_lane", "crosswalk", "emergency_lane", "exit", "freespace", "highway", "keepout", "parking", "play_street", "road", "shared_walkway", "stairs", "traffic_island", "vegetation", "walkway"};
const SS locations{"nonurban", "private", "urban"};
bool badSubtype(const S& type, const S& sub) {   // of a line string; types without a list accept every subtype
  const SS marks{"dashed", "dashed_solid", "solid", "solid_dashed", "solid_solid"}, simple{"dashed", "solid"};
  if (type == "line_thin" || type == "line_thick") return !in(sub, marks);
  if (type == "bike_marking" || type == "pedestrian_marking" || type == "stop_line") return !in(sub, simple);
  if (type == "curbstone") return !in(sub, {"high", "low"});
  if (type == "arrow") return !in(sub, {"left", "left_right", "right", "straight", "straight_left", "straight_right"});
  if (type == "traffic_light") return !in(sub, {"red", "red_green", "red_yellow", "red_yellow_green"});
  return type == "virtual" || type == "bump";
}
enum { PT, LS, LL, AR, RE, PG, KINDS };
const VP prims[] = {VP::Point, VP::LineString, VP::Lanelet, VP::Area, VP::RegulatoryElement, VP::Polygon};
struct Map {
  LaneletMapPtr map = std::make_shared<LaneletMap>();
  Point3d pt{1, 50, 50, 0}; LineString3d ls; Lanelet ll; Area ar; std::shared_ptr<GenericRegulatoryElement> re; Polygon3d pg;
  AttributeMap* at[KINDS]; Id ids[KINDS];
  Map() {
    auto p = [](Id id, double x, double y) { return Point3d(id, x, y, 0); };
    AttributeMap border{{"type", "road_border"}};
    ls = LineString3d(20, {p(2, 0, 2), p(3, 4, 2)}, border);
    LineString3d r(21, {p(4, 0, 0), p(5, 4, 0)}, border), a(22, {p(6, 0, 10), p(7, 4, 10), p(8, 4, 6), p(9, 0, 6), p(10, -2, 8)}, border), a2(23, {p(10, -2, 8), p(6, 0, 10)}, border);
    ll = Lanelet(30, ls, r, AttributeMap{{"type", "lanelet"}, {"subtype", "road"}, {"location", "urban"}});
    ar = Area(40, {a, a2}, {}, AttributeMap{{"type", "multipolygon"}, {"subtype", "parking"}, {"location", "urban"}});
    re = std::make_shared<GenericRegulatoryElement>(50, RuleParameterMap{{"refers", {ls}}}, AttributeMap{{"type", "regulatory_element"}, {"subtype", "custom"}});
    pg = Polygon3d(60, {p(11, 20, 20), p(12, 22, 22), p(13, 24, 20)}, AttributeMap{});
    map->add(pt); map->add(ll); map->add(ar); map->add(RegulatoryElementPtr(re)); map->add(pg);
    at[PT] = &pt.attributes(); at[LS] = &ls.attributes(); at[LL] = &ll.attributes(); at[AR] = &ar.attributes(); at[RE] = &re->attributes(); at[PG] = &pg.attributes();
    Id i[] = {1, 20, 30, 40, 50, 60}; for (int k = 0; k < KINDS; k++) ids[k] = i[k];
  }
  std::vector<Iss> run(const S& filter) { ValidationConfig c; c.checksFilter = filter; return flat(validateMap(*map, c)); }
};
// matcher for the filter patterns used below: letters (any case), '.' and x*
bool match(const char* p, const char* s) {
  if (!*p) return !*s;
  auto one = [&](char c) { return c && (*p == '.' || std::tolower(*p) == std::tolower(c)); };
  if (p[1] == '*') { for (const char* t = s;; t++) { if (match(p + 2, t)) return true; if (!one(*t)) return false; } }
  return one(*s) && match(p + 1, s + 1);
}
std::vector<S> ran;
struct MapV : MapValidator { constexpr static const char* name() { return "test.map"; } Issues operator()(const LaneletMap& m) override { ran.push_back(name()); return m.laneletLayer.exists(30) ? Issues{Issue(Severity::Info, VP::Lanelet, 30, "info"), Issue(Severity::Error, "error")} : Issues{}; } };
struct RuleV : TrafficRuleValidator {
  constexpr static const char* name() { return "test.rules"; }
  Issues operator()(const LaneletMap&, const std::vector<traffic_rules::TrafficRulesUPtr>& r) override { S s = name(); for (auto& x : r) s += " " + x->participant(); ran.push_back(s); return {}; }
};
struct GraphV : RoutingGraphValidator {
  constexpr static const char* name() { return "test.graph"; }
  Issues operator()(const routing::RoutingGraph& g, const traffic_rules::TrafficRules& r) override { ran.push_back(S(name()) + " " + r.participant()); return {Issue(Severity::Warning, r.participant() + (g.passableSubmap()->laneletLayer.exists(30) ? " passes" : ""))}; }
};
RegisterMapValidator<MapV> r1; RegisterTrafficRuleValidator<RuleV> r2; RegisterRoutingGraphValidator<GraphV> r3;
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0);
  if (mode <= 3) {
    Map m;
    int k = pick("kind", 0, KINDS - 1);
    AttributeMap& at = *m.at[k];
    S check;
    int want = 0;
    S text;
    if (mode == 0) {   // values of a single tag, or type and subtype of a line string
      check = "mapping.unknown_tag_value";
      if (k == LS && pick("both", 0, 1)) {
        SS t = lsTypes; t.push_back("new_type");
        at["type"] = of("type", t);
        at["subtype"] = of("subtype", {"dashed", "dashed_solid", "solid", "solid_dashed", "solid_solid", "high", "low", "left", "straight", "straight_left", "left_right", "red", "red_green", "red_yellow_green", "none", "de206", "Solid", ""});
        want = (at["type"].value() == "new_type") + badSubtype(at["type"].value(), at["subtype"].value());
        if (badSubtype(at["type"].value(), at["subtype"].value())) {
          REACH("subtype");
          auto got = m.run(check);
          if (int(got.size()) == want - 1 && count(got, check, VP::LineString, 20, Severity::Warning, "subtype") == 0) { sym_note("subtype-values"); return; }
        }
      } else {
        SS vals = lsTypes;
        for (auto* l : {&arSubtypes, &llSubtypes, &locations}) vals.insert(vals.end(), l->begin(), l->end());
        for (const char* c : {"dot", "end", "pole", "post", "start", "lanelet", "multipolygon", "regulatory_element", "none", "", "Urban", "aaa", "zzz", "urba", "urbann"}) vals.push_back(c);
        text = of("tag", {"type", "subtype", "location", "speed_limit"});
        S v = of("value", vals);
        if (k == LS && text == "subtype") return;   // above
        at[text] = v;
        if (text == "type") want = k == PT ? !in(v, {"dot", "end", "pole", "post", "start"}) : k == LS ? !in(v, lsTypes) : k == LL ? v != "lanelet" : k == AR ? v != "multipolygon" : k == RE ? v != "regulatory_element" : 0;
        if (text == "subtype") want = k == LL ? !in(v, llSubtypes) : k == AR ? !in(v, arSubtypes) : 0;
        if (text == "location") want = (k == LL || k == AR) && !in(v, locations);
      }
    }
    if (mode == 1) {
      check = "mapping.unknown_tags";
      text = of("tag", {"type", "subtype", "ele", "lane_change", "lane_change:left", "width", "height", "temporary", "color", "one_way", "one_way:pedestrian", "name", "region", "speed_limit", "speed_limit_mandatory", "location", "participant:vehicle", "participant", "dynamic", "fallback", "sign_type", "unknown", "", "typ", "Type", "one", "area"});
      SS known[] = {{"ele", "type", "subtype"}, {"type", "subtype", "lane_change", "width", "height", "temporary", "color"}, {"type", "subtype", "one_way", "name", "region", "speed_limit", "location", "participant"}, {"type", "subtype", "speed_limit", "location", "region", "name"}, {"dynamic", "fallback", "sign_type", "speed_limit", "subtype", "type"}};
      at[text] = S("yes");
      want = k != PG;
      if (k != PG) for (auto& x : known[k]) if (starts(text, x)) want = 0;   // tags may be refined (participant:vehicle)
    }
    if (mode == 2) {
      check = "mapping.bool_tags";
      text = of("tag", {"one_way", "one_way:pedestrian", "dynamic", "lane_change", "lane_change:right", "participant:vehicle:car", "fallback", "temporary", "speed_limit", "on", "width"});
      S v = of("value", {"yes", "no", "true", "false", "1", "0", "", "maybe", "YES", "2", "y", "true ", "10"});
      at[text] = v;
      bool isBool = false; for (const char* b : {"one_way", "dynamic", "lane_change", "participant", "fallback", "temporary"}) isBool |= starts(text, b);
      want = k != PT && k != PG && isBool && !in(v, {"yes", "no", "true", "false", "1", "0"});
    }
    if (mode == 3) {
      check = "mapping.mandatory_tags";
      SS must[] = {{}, {"type"}, {"type", "subtype", "location"}, {"type", "subtype", "location"}, {"type", "subtype"}, {}};
      at.clear();
      for (const char* t : {"type", "subtype", "location", "name"}) { bool has = pick(t, 0, 1); if (has) at[t] = S("x"); else if (in(t, must[k])) want++; }
    }
    auto got = m.run(check);
    CHECK(int(got.size()) == want, "one issue for every defect and nothing else");
    CHECK(count(got, check, prims[k], m.ids[k], Severity::Warning, text) == want, "the issue names the element and the tag");
    REACH(want == 0 ? "clean" : want == 1 ? "issue" : "several");
    return;
  }
  if (mode == 4) {   // repeated points
    int n = pick("points", 0, 4), kind = pick("kind", 0, 1), dir = pick("direction", 0, 1);
    Points3d p; for (int i = 0; i < 3; i++) p.emplace_back(1 + i, i == 2 ? 0. : double(i), 0., 0.);   // the third one lies on the first
    Points3d v; std::vector<int> ix;
    for (int i = 0; i < n; i++) { ix.push_back(pick("point", 0, 2)); v.push_back(p[ix.back()]); }
    auto map = std::make_shared<LaneletMap>();
    bool rep = false; std::set<int> which;
    for (int i = 0; i + 1 < n; i++) if (ix[i] == ix[i + 1]) { rep = true; which.insert(ix[i] + 1); }
    LineString3d other(11, {p[0], p[1]});
    map->add(other);
    if (kind == 0) { LineString3d l(10, v); map->add(dir ? l.invert() : l); } else { if (!rep && n > 1 && ix[0] == ix[n - 1]) return; Polygon3d g(10, v); map->add(g); }
    ValidationConfig c; c.checksFilter = "mapping.duplicated_points";
    auto got = flat(validateMap(*map, c));
    CHECK(int(got.size()) == (rep ? 1 : 0), "one issue for a repeated point and nothing else");
    if (rep) {
      bool named = false; for (int i : which) named |= got[0].text.find("point " + std::to_string(i) + " ") != S::npos;
      CHECK(count(got, c.checksFilter, kind ? VP::Polygon : VP::LineString, 10, Severity::Error) == 1 && named, "the issue names the element and the point");
      REACH(kind ? "polygon" : "line string");
    } else REACH("clean");
    return;
  }
  if (mode == 5) {   // close points
    int n = PARAM("n", 4);
    auto map = std::make_shared<LaneletMap>();
    std::vector<IP> at{{0, 0, 0}};
    for (int i = 1; i < n; i++) at.push_back({pick("x", 0, 2), pick("y", 0, 1), pick("z", 0, 1) * 50});
    Points3d p; for (int i = 0; i < n; i++) { p.emplace_back(1 + i, at[i].x * 0.03, at[i].y * 0.03, at[i].z * 0.03); map->add(p.back()); }
    ValidationConfig c; c.checksFilter = "mapping.points_too_close";
    auto got = flat(validateMap(*map, c));
    size_t want = 0;
    for (int i = 0; i < n; i++) {
      bool close = false, above = false;
      for (int j = 0; j < n; j++) if (j != i) { I d = dot(at[i] - at[j], at[i] - at[j]); if (d * 9 < 25) close = true; if (at[i].x == at[j].x && at[i].y == at[j].y && at[i].z != at[j].z) above = true; }
      if (close && above) REACH("close and stacked");
      CHECK(count(got, c.checksFilter, VP::Point, 1 + i) == close, "every point with a neighbour closer than 5 cm is reported");
      want += close;
    }
    CHECK(got.size() == want, "nothing else is reported");
    REACH(want ? "close" : "clean");
    return;
  }
  if (mode == 6) {   // curvature
    int n = PARAM("n", 3), R = PARAM("R", 3);
    std::vector<IP> v{{0, 0}};
    for (int i = 1; i < n; i++) v.push_back({pick("x", -R, R), pick("y", -R, R)});
    int inv = pick("inverted", 0, 1), both = pick("shared", 0, 1), side = pick("side", 0, 1);
    Points3d p; for (int i = 0; i < n; i++) p.emplace_back(1 + i, double(v[i].x), double(v[i].y), double(i));
    LineString3d l(10, p), straight(11, {Point3d(20, 0, 9, 0), Point3d(21, 5, 9, 0), Point3d(22, 9, 9, 0)}), third(12, {Point3d(23, 0, -9, 0), Point3d(24, 5, -9, 0)});
    if (inv) l = l.invert();
    auto map = std::make_shared<LaneletMap>();
    map->add(side ? Lanelet(30, straight, l) : Lanelet(30, l, straight));
    if (both) map->add(Lanelet(31, l, third));
    ValidationConfig c; c.checksFilter = "mapping.curvature_too_big";
    auto got = flat(validateMap(*map, c));
    size_t want = 0;
    for (int i = 1; i + 1 < n; i++) {
      IP a = v[i] - v[i - 1], b = v[i + 1] - v[i], d = v[i + 1] - v[i - 1];
      I q = cr(a, d), prod = dot(a, a) * dot(b, b) * dot(d, d);
      if (prod != 0 && 16 * q * q == prod) return;   // exactly at the limit
      bool big = prod == 0 || 16 * q * q > prod;
      S txt = "point " + std::to_string(1 + i) + " ";
      CHECK(count(got, c.checksFilter, VP::Lanelet, 30, Severity::Warning, txt) == big && count(got, c.checksFilter, VP::Lanelet, 31, Severity::Warning, txt) == (big && both), "every point with a curvature above 0.5 is reported for its lanelet");
      want += big * (1 + both);
    }
    CHECK(got.size() == want, "nothing else is reported");
    REACH(want ? "sharp" : "clean");
    return;
  }
  if (mode == 7) {   // selection by name
    const SS builtin{"mapping.bool_tags", "mapping.curvature_too_big", "mapping.duplicated_points", "mapping.mandatory_tags", "mapping.points_too_close", "mapping.unknown_tag_value", "mapping.unknown_tags", "test.map"};
    SS all = builtin; all.push_back("test.rules"); all.push_back("routing.graph_is_valid"); all.push_back("test.graph");
    const SS pat{"", "mapping.*", "mapping.unknown_tags", ".*tag.*", "TEST.map", "test.rules", "routing.*", "test.*", "nothing", "test.graph", "mapping.unknown_tag", ".*", "t.*h"};
    S f1 = of("first filter", pat), f2 = of("second filter", pat), f = f1;
    int form = pick("form", 0, 2);
    if (form) f = f1 + "," + f2; 
    if (form == 2) f += ",";
    if (!form) f2 = "";
    SS want;
    bool none = f1.empty() && f2.empty();
    auto sel = [&](const S& n) { return none || (!f1.empty() && match(f1.c_str(), n.c_str())) || (!f2.empty() && match(f2.c_str(), n.c_str())); };
    std::multiset<S> av; for (auto& s : availabeChecks(f)) av.insert(s);
    for (auto& n : all) CHECK(av.count(n) == size_t(sel(n)), "listed checks are the selected ones");
    size_t cnt = 0; for (auto& n : all) cnt += sel(n);
    CHECK(av.size() == cnt, "no other checks are listed");
    Map m;
    (*m.at[LL])["nonsense"] = S("1"); (*m.at[LL]).erase("location");
    ValidationConfig c; c.checksFilter = f;
    int parts = pick("participants", 0, 2);
    c.participants = parts == 0 ? SS{"vehicle"} : parts == 1 ? SS{"vehicle", "pedestrian"} : SS{};
    ran.clear();
    auto issues = validateMap(*m.map, c);
    auto got = flat(issues);
    auto times = [&](const S& s) { return std::count(ran.begin(), ran.end(), s); };
    S pl; for (auto& p : c.participants) pl += " " + p;
    CHECK(times("test.map") == sel("test.map"), "selected map validators run once");
    CHECK(times("test.rules" + pl) == sel("test.rules"), "selected rule validators run once with all rules");
    size_t total = sel("test.map") + sel("test.rules");
    for (auto& p : c.participants) { CHECK(times("test.graph " + p) == sel("test.graph"), "selected graph validators run for every participant"); total += sel("test.graph"); }
    CHECK(ran.size() == total, "no other validator runs");
    size_t iss = 0;
    auto expect = [&](const S& check, int n, VP p, Id id, Severity s) { int w = sel(check) ? n : 0; CHECK(count(got, check, p, id, s) == w, "issues of the selected validators"); iss += w; };
    expect("mapping.unknown_tags", 1, VP::Lanelet, 30, Severity::Warning);
    expect("mapping.mandatory_tags", 1, VP::Lanelet, 30, Severity::Warning);
    expect("test.map", 1, VP::Lanelet, 30, Severity::Info);
    expect("test.map", 1, Issue().primitive, InvalId, Severity::Error);
    size_t warn = iss;
    warn -= sel("test.map") ? 2 : 0;
    for (auto& p : c.participants) { int n = 0; for (auto& g : got) n += g.check == "test.graph" && g.text == p + (p == "vehicle" ? " passes" : ""); CHECK(n == sel("test.graph"), "graph of the participant"); iss += n; warn += n; }
    CHECK(got.size() == iss, "no other issues");
    auto rep = buildReport(issues);
    CHECK(rep.errors.size() == size_t(sel("test.map")) && rep.warnings.size() == warn, "errors and warnings of the report");
    for (auto& e : rep.errors) CHECK(e == "Error: error [test.map]", "text of an error");
    int lines = 0; for (auto& w : rep.warnings) lines += w.find("Warning: lanelet 30 attribute nonsense") == 0 && w.find("[mapping.unknown_tags]") != S::npos;
    CHECK(lines == sel("mapping.unknown_tags"), "text of a warning");
    REACH(cnt == 0 ? "none selected" : cnt == all.size() ? "all selected" : "some selected");
    return;
  }
  if (mode == 8) {   // command line
    bool filter = pick("filter", 0, 1), print = pick("print", 0, 1), help = pick("help", 0, 1), lat = pick("lat", 0, 1), lon = pick("lon", 0, 1), loc = pick("location", 0, 1), file = pick("file", 0, 1), longName = pick("long options", 0, 1);
    int parts = pick("participants", 0, 2);
    std::vector<const char*> a{"validate"};
    if (file && !longName) a.push_back("/nonexistent/lanelet2_verif.osm");
    if (filter) { a.push_back(longName ? "--filter" : "-f"); a.push_back("mapping.*,x"); }
    if (print) a.push_back("--print");
    if (help) a.push_back(longName ? "--help" : "-h");
    if (lat) { a.push_back("--lat"); a.push_back("49.5"); }
    if (lon) { a.push_back("--lon"); a.push_back("-8.25"); }
    if (loc) { a.push_back(longName ? "--location" : "-l"); a.push_back("de"); }
    const char* pn[] = {"pedestrian", "bicycle"};
    for (int i = 0; i < parts; i++) { a.push_back(longName ? "--participants" : "-p"); a.push_back(pn[i]); }
    if (file && longName) a.push_back("/nonexistent/lanelet2_verif.osm");
    auto c = parseCommandLine(int(a.size()), a.data());
    CHECK(c.help == help && c.print == print && c.mapFile == (file ? "/nonexistent/lanelet2_verif.osm" : ""), "options of the program");
    auto& v = c.validationConfig;
    CHECK(v.checksFilter == (filter ? "mapping.*,x" : "") && v.location == Locations::Germany, "filter and location");
    CHECK(v.origin.lat == (lat ? 49.5 : 0.) && v.origin.lon == (lon ? -8.25 : 0.), "origin");
    CHECK(v.participants == (parts == 0 ? SS{"vehicle"} : parts == 1 ? SS{"pedestrian"} : SS{"pedestrian", "bicycle"}), "participants");
    CHECK(runFromConfig(c) == (help || print ? 0 : 1), "a map that cannot be loaded is an error");
    REACH(file ? "file" : "no file");
  }
}
