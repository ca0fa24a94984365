// I01: maps survive writing to and loading from the OSM format
#include "mapcmp.h"
#include <lanelet2_io/Io.h>
#include <lanelet2_io/io_handlers/OsmFile.h>
#include <lanelet2_io/io_handlers/OsmHandler.h>
#include <unistd.h>
namespace {
struct Id2 : Projector {   // geographic coordinates are the local ones
  explicit Id2(Origin o) : Projector(o) {}
  BasicPoint3d forward(const GPSPoint& p) const override { return {p.lat, p.lon, p.ele}; }
  GPSPoint reverse(const BasicPoint3d& p) const override { return {p.x(), p.y(), p.z()}; }
};
int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
void roundtrip(const LaneletMap& map, bool text) {
  Id2 proj(Origin(GPSPoint{0, 0, 0}));
  ErrorMessages werr, lerr;
  std::unique_ptr<LaneletMap> back;
  const bool bin = PARAM("bin", 0);
  if (text) {
    std::string f = "/tmp/lanelet2_verif_" + std::to_string(getpid()) + (bin ? ".bin" : ".osm");
    write(f, map, proj, &werr);
    back = load(f, proj, &lerr);
    unlink(f.c_str());
    Id most = 0;
    for (const auto& p : map.pointLayer) most = std::max(most, p.id());
    for (const auto& p : map.lineStringLayer) most = std::max(most, p.id());
    for (const auto& p : map.laneletLayer) most = std::max(most, p.id());
    CHECK(utils::getId() > most, "ids of the file are known to the id generator");
  } else {
    auto file = io_handlers::OsmWriter(proj).toOsmFile(map, werr, {});
    back = io_handlers::OsmParser(proj).fromOsmFile(*file, lerr);
  }
  CHECK(werr.empty(), "no errors when writing");
  CHECK(lerr.empty(), "no errors when loading");
  compareMaps(map, *back, bin);
  REACH("restored");
}
AttributeMap anyAttrs(const char* n) {
  static const char* texts[] = {"plain", "a<b&\"c'>", " lead and trail ", "\xc3\xa4\xe2\x82\xac", "", "0.10", "two  blanks\tand tab"};
  AttributeMap m;
  int k = pick(n, 0, 8);
  if (k == 0) return m;
  if (k == 8) { m["subtype"] = "x"; m["free key"] = "y"; m["k<&>"] = "z"; return m; }
  m["note"] = texts[k - 1];
  return m;
}
}  // namespace
void sym_harness() {
  int mode = PARAM("mode", 0);
  bool text = PARAM("text", 1);
  if (mode == 0) {   // points, line strings, polygons
    int what = PARAM("what", 0);
    Id base = pick("ids", 0, 2) == 0 ? 10 : sym_bool("big") ? 4000000000000000000ll : -50;
    static const double cs[] = {0., -0.015625, 48.984375, -8.5, 0.00000000001, 179.99999999999};
    std::vector<Point3d> p;
    p.emplace_back(base, cs[what ? 2 : pick("x", 0, 5)], cs[what ? 1 : pick("y", 0, 5)], what || pick("z", 0, 1) ? -3.25 : 0.);
    p.emplace_back(base + 1, 1.25, 2.5, sym_bool("high") ? 1234.0625 : 0.);
    p.emplace_back(base + 2, 2, 2, 0);
    LaneletMap map;
    p[0].attributes() = what == 0 ? anyAttrs("attributes") : AttributeMap();
    for (auto& q : p) map.add(q);
    if (what == 1) {
      Points3d pts; int n = pick("n", 1, 4);
      for (int i = 0; i < n; i++) pts.push_back(p[pick("point", 0, 2)]);
      if (sym_bool("polygon")) { Polygon3d pg(base + 5, pts, AttributeMap{{"type", "zone"}, {"n", "1"}}); map.add(pg); REACH("polygon"); }
      else { LineString3d l(base + 5, pts, AttributeMap{{"a", "b"}}); map.add(sym_bool("inverted") ? l.invert() : l); REACH("line string"); }
    }
    roundtrip(map, text);
  } else if (mode == 1) {   // lanelets: every choice and orientation of bounds
    std::vector<LineString3d> ls; Id id = 100;
    int cl = pick("centerline", 0, 1), npts = pick("points", 2, 3);
    bool rev[3];
    for (int i = 0; i < 3; i++) {
      rev[i] = sym_bool("stored backwards");
      Points3d ps; for (int k = 0; k < npts; k++) ps.emplace_back(id++, 2 * k, 2 * i, 0);
      if (rev[i]) std::reverse(ps.begin(), ps.end());
      ls.emplace_back(id++, ps);
    }
    auto east = [&](int i) { return rev[i] ? ls[i].invert() : ls[i]; };
    LaneletMap map;
    int n = pick("lanelets", 1, 2);
    std::vector<RegulatoryElementPtr> regs;
    std::vector<Lanelet> ll;
    for (int k = 0; k < n; k++) {
      int l = pick("left", 0, 2), r = pick("right", 0, 2);
      ASSUME(l != r);
      bool west = l < r;   // the bound with the larger y lies left when driving east
      auto L = east(l), R = east(r);
      if (west) { L = L.invert(); R = R.invert(); REACH("inverted"); }
      ll.emplace_back(200 + k, L, R, k ? AttributeMap{{"one_way", "no"}, {"subtype", "road"}} : AttributeMap());
      if (k == 0 && cl) {
        LineString3d c(150, Points3d{Point3d(151, 0, (l + r) * 1., 0), Point3d(152, 4, (l + r) * 1., 0)});
        bool against = PARAM("bin", 0) && sym_bool("centre line stored against");
        if (against) REACH("centre line against");   // the osm format has no way to store a centre line against its line string
        if (west != against) { Points3d q{c[1], c[0]}; c = LineString3d(150, q); }
        ll[0].setCenterline(against ? c.invert() : c);
        REACH("centre line");
      }
    }
    for (auto& l : ll) map.add(l);
    roundtrip(map, text);
  } else if (mode == 2) {   // areas: rings of 1-3 line strings with holes
    Id id = 1;
    auto mk = [&](double x, double y) { return Point3d(id++, x, y, 0); };
    // ring: clockwise points, cut into line strings; each stored in either direction; rotation of the first line string
    auto ring = [&](std::vector<Point3d> pts, bool ccw, int parts) {
      if (ccw) std::reverse(pts.begin(), pts.end());
      int n = pts.size();
      LineStrings3d r;
      if (parts == 1) {
        Points3d q(pts.begin(), pts.end()); q.push_back(pts[0]);
        bool inv = sym_bool("stored backwards");
        if (inv) std::reverse(q.begin(), q.end());
        LineString3d l(id++, q);
        r.push_back(inv ? l.invert() : l);
        return r;
      }
      std::vector<int> cut{0};
      int c1 = parts == n ? 1 : pick("cut", 1, n - parts + 1);
      cut.push_back(c1);
      if (parts >= 3) for (int k = 2; k < parts; k++) cut.push_back(c1 + k - 1);
      cut.push_back(n);
      for (int k = 0; k < parts; k++) {
        Points3d q;
        for (int i = cut[k]; i <= cut[k + 1]; i++) q.push_back(pts[i % n]);
        bool inv = sym_bool("stored backwards");
        if (inv) std::reverse(q.begin(), q.end());
        LineString3d l(id++, q);
        r.push_back(inv ? l.invert() : l);
      }
      return r;
    };
    int rot = pick("rotation", 0, 1);
    std::vector<Point3d> o{mk(0, 0), mk(0, 10), mk(10, 10), mk(10, 0)};
    std::rotate(o.begin(), o.begin() + rot, o.end());
    int holes = pick("holes", 0, 2);
    auto outer = ring(o, false, holes == 2 ? 2 : pick("parts", 1, 4));
    InnerBounds inner;
    if (holes) inner.push_back(ring({mk(1, 1), mk(1, 3), mk(3, 3)}, true, pick("hole parts", 1, 3)));
    if (holes == 2) inner.push_back(ring({mk(5, 5), mk(5, 7), mk(7, 7)}, true, 2));
    if (holes) REACH("hole");
    if (holes == 2) REACH("two holes");
    Area ar(id + 10, outer, inner, AttributeMap{{"subtype", "parking"}});
    LaneletMap map; map.add(ar);
    roundtrip(map, text);
  } else if (mode == 3) {   // rules: every kind of reference, cycles, several owners
    Id id = 1;
    auto line = [&](double y) { Point3d a(id++, 0, y, 0), b(id++, 5, y, 0); return LineString3d(id++, Points3d{a, b}); };
    std::vector<LineString3d> b{line(0), line(2), line(4), line(6)};
    Lanelet l0(50, b[1], b[0]), l1(51, b[2], b[1]);
    Point3d a1(id++, 20, 0, 0), a2(id++, 20, 5, 0), a3(id++, 25, 5, 0);
    Area ar(52, {LineString3d(id++, Points3d{a1, a2, a3}), LineString3d(id++, Points3d{a3, a1})});
    Polygon3d pg(60, Points3d{a1, a2, a3});
    b[3].attributes()["subtype"] = "de274"; pg.attributes()["subtype"] = "de278";
    LaneletMap map;
    RegulatoryElementPtr r;
    int kind = pick("kind", 0, 5);
    if (kind == 0) {
      auto g = std::make_shared<GenericRegulatoryElement>(70, RuleParameterMap(), AttributeMap{{"subtype", GenericRegulatoryElement::RuleName}, {"x", "1"}});
      int n = pick("n", 0, 2);
      for (int i = 0; i < n; i++) {
        std::string role = sym_bool("other role") ? "refers" : "my role";
        switch (pick("par", 0, 5)) {
          case 0: g->addParameter(role, a1); break;
          case 1: g->addParameter(role, PARAM("bin", 0) && sym_bool("parameter inverted") ? b[3].invert() : b[3]); break;
          case 2: g->addParameter(role, pg); break;
          case 3: g->addParameter(role, PARAM("bin", 0) && sym_bool("parameter inverted") ? l0.invert() : l0); break;
          case 4: g->addParameter(role, l1); break;
          case 5: g->addParameter(role, ar); break;
        }
      }
      r = g;
      REACH("generic");
    } else if (kind == 1) { r = TrafficLight::make(70, {}, sym_bool("poly") ? LineStringsOrPolygons3d{pg, b[3]} : LineStringsOrPolygons3d{b[3]}, sym_bool("stop") ? Optional<LineString3d>(b[2]) : Optional<LineString3d>());
    } else if (kind == 2) {
      r = RightOfWay::make(70, {}, sym_bool("two") ? Lanelets{l0, l1} : Lanelets{l0}, sym_bool("yield") ? Lanelets{l1} : Lanelets{l0}, sym_bool("stop") ? Optional<LineString3d>(b[2]) : Optional<LineString3d>());
      REACH("right of way");
    } else if (kind == 3) {
      r = AllWayStop::make(70, {}, sym_bool("two") ? LaneletsWithStopLines{LaneletWithStopLine{l0, b[3]}, LaneletWithStopLine{l1, b[2]}} : LaneletsWithStopLines{LaneletWithStopLine{l1, b[3]}}, sym_bool("sign") ? LineStringsOrPolygons3d{pg} : LineStringsOrPolygons3d());
    } else if (kind == 4) {
      TrafficSignsWithType s{LineStringsOrPolygons3d{b[3]}, sym_bool("typed") ? "de274" : ""}, c;
      if (sym_bool("cancel")) c = TrafficSignsWithType{LineStringsOrPolygons3d{pg}, sym_bool("ctyped") ? "de278" : ""};
      LineStrings3d rl, cr; if (sym_bool("ref line")) rl.push_back(b[2]); if (sym_bool("cancel line")) cr.push_back(b[0]);
      r = sym_bool("limit") ? RegulatoryElementPtr(SpeedLimit::make(70, {}, s, c, rl, cr)) : RegulatoryElementPtr(TrafficSign::make(70, {}, s, c, rl, cr));
      REACH("sign");
    } else {
      auto g = std::make_shared<GenericRegulatoryElement>(70, RuleParameterMap(), AttributeMap{{"subtype", GenericRegulatoryElement::RuleName}});
      r = g;
      auto g2 = std::make_shared<GenericRegulatoryElement>(sym_bool("id below") ? 40 : 71, RuleParameterMap(), AttributeMap{{"subtype", GenericRegulatoryElement::RuleName}});
      g2->addParameter("refers", ar); g2->addParameter("refers", l1); g2->addParameter("cancels", l0);
      g->addParameter("refers", l0);
      if (sym_bool("on first")) l0.addRegulatoryElement(g2);
      if (sym_bool("on second")) l1.addRegulatoryElement(g2);
      if (sym_bool("on area 2")) ar.addRegulatoryElement(g2);
      map.add(RegulatoryElementPtr(g2));
    }
    int at = pick("attached", 0, 7);
    if (at & 1) l0.addRegulatoryElement(r);
    if (at & 2) l1.addRegulatoryElement(r);
    if (at & 4) ar.addRegulatoryElement(r);
    if (at == 7) REACH("shared");
    map.add(pg); map.add(b[3]);
    if (sym_bool("elements too")) { map.add(l0); map.add(l1); map.add(ar); }
    map.add(r);
    roundtrip(map, text);
  } else if (mode == 4) {   // symbolic geometry through the intermediate representation
    Id id = 1; int R = PARAM("R", 1);
    // a lanelet between two line strings that run from west to east; the bounds are stored in either direction
    auto pt = [&](const char* n, int x, int ylo, int yhi) { return Point3d(id++, sym_grid(n, x - 1, x + 1, 0), sym_grid("y", ylo, yhi, 0), 0.5); };
    bool rl = sym_bool("left stored backwards"), rr = sym_bool("right stored backwards");
    Points3d lp, rp; int n = PARAM("n", 2);
    for (int i = 0; i < n; i++) lp.push_back(pt("left", 3 * i, 1, 1 + R));
    for (int i = 0; i < n; i++) rp.push_back(pt("right", 3 * i, -1 - R, -1));
    if (rl) std::reverse(lp.begin(), lp.end());
    if (rr) std::reverse(rp.begin(), rp.end());
    LineString3d l(id++, lp), r(id++, rp);
    bool west = sym_bool("westbound");
    if (rl) l = l.invert(); if (rr) r = r.invert();
    Lanelet ll(id++, west ? r.invert() : l, west ? l.invert() : r);
    LaneletMap map; map.add(ll);
    roundtrip(map, false);
  } else if (mode == 5) {   // a rule refers to elements that are not in the map: reported, nothing else is affected
    Id id = 1;
    auto line = [&](double y) { Point3d a(id++, 0, y, 0), b(id++, 5, y, 0); return LineString3d(id++, Points3d{a, b}); };
    auto g = std::make_shared<GenericRegulatoryElement>(70, RuleParameterMap(), AttributeMap{{"subtype", GenericRegulatoryElement::RuleName}});
    auto g2 = std::make_shared<GenericRegulatoryElement>(71, RuleParameterMap(), AttributeMap{{"subtype", GenericRegulatoryElement::RuleName}});
    LaneletMap map;
    map.add(RegulatoryElementPtr(g)); map.add(RegulatoryElementPtr(g2));
    std::vector<Lanelet> ll; std::vector<LineString3d> ls;
    std::vector<std::string> want; int missing = 0;
    int n = pick("n", 1, 4);
    for (int k = 0; k < n; k++) {
      ll.emplace_back(200 - k, line(2 * k + 1), line(2 * k));
      bool in = sym_bool("in the map");
      std::string role = k == 2 ? "b" : "a";
      auto& target = k == 3 && sym_bool("second rule") ? g2 : g;
      if (k < 3 && sym_bool("line")) {
        ls.push_back(line(50 + k));
        if (in) map.add(ls.back());
        target->addParameter(role, ls.back());
        if (in) want.push_back(role + std::to_string(ls.back().id()));
      } else {
        if (in) map.add(ll.back());
        target->addParameter(role, ll.back());
        if (in) want.push_back((target == g2 ? "2" : "") + role + std::to_string(ll.back().id()));
      }
      missing += !in;
    }
    if (missing >= 2) REACH("several missing");
    Id2 proj(Origin(GPSPoint{0, 0, 0}));
    ErrorMessages werr, lerr;
    std::string f = "/tmp/lanelet2_verif_" + std::to_string(getpid()) + ".osm";
    bool threw = false;
    try { write(f, map, proj); } catch (WriteError&) { threw = true; }
    write(f, map, proj, &werr);
    auto back = load(f, proj, &lerr);
    unlink(f.c_str());
    CHECK(threw == (missing > 0), "writing throws exactly when references are missing");
    CHECK(missing ? (int)werr.size() == missing + 1 : werr.empty(), "every missing reference is reported");
    CHECK(lerr.empty(), "the written file is complete");
    std::vector<std::string> have;
    for (Id r : {70, 71}) {
      auto p = back->regulatoryElementLayer.get(r)->getParameters();
      for (auto& kv : p) { ParEx ex; for (auto& e : kv.second) boost::apply_visitor(ex, e); for (auto& e : ex.out) have.push_back((r == 71 ? "2" : "") + kv.first + std::to_string(e.id)); }
    }
    std::sort(want.begin(), want.end()); std::sort(have.begin(), have.end());
    CHECK(want == have, "the other references are written with their roles");
    CHECK(back->laneletLayer.size() == map.laneletLayer.size() && back->lineStringLayer.size() == map.lineStringLayer.size(), "the rest of the map is written");
    REACH("written");
  }
}
