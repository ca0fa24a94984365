// I02: loading damaged OSM documents. The document, the damage and the expectation are independent of the loader.
#include "h.h"
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Projection.h>
#include <algorithm>
#include <cstdio>
#include <unistd.h>
namespace {
struct Ident : Projector {
  explicit Ident(Origin o) : Projector(o) {}
  Id reject{0};
  BasicPoint3d forward(const GPSPoint& p) const override { if (p.lat == 77.) throw ForwardProjectionError("out of range"); return {p.lat, p.lon, p.ele}; }
  GPSPoint reverse(const BasicPoint3d& p) const override { return {p.x(), p.y(), p.z()}; }
};
struct N { Id id; double x, y; bool del = false; };
struct W { Id id; std::vector<Id> refs; bool area = false, del = false; };
struct M { std::string type; Id ref; std::string role; };
struct Rel { Id id; std::string type, subtype; std::vector<M> m; bool del = false; };
struct Doc { std::vector<N> n; std::vector<W> w; std::vector<Rel> r; };
Doc base() {
  Doc d;
  // area 0..10 square (clockwise 1 2 3 4), hole 5 6 7 (counter-clockwise)
  d.n = {{1, 0, 0}, {2, 0, 10}, {3, 10, 10}, {4, 10, 0}, {5, 2, 2}, {6, 4, 4}, {7, 2, 4}, {8, 20, 5}, {9, 30, 5}, {10, 20, 3}, {11, 30, 3}, {12, 20, 1}, {13, 30, 1}};
  d.w = {{20, {8, 9}}, {21, {10, 11}}, {22, {1, 2, 3}}, {23, {1, 4, 3}}, {24, {5, 6, 7, 5}}, {26, {1, 2, 3}, true}, {27, {8, 10}}, {28, {12, 13}}};
  d.r = {{30, "lanelet", "road", {{"way", 20, "left"}, {"way", 21, "right"}, {"relation", 33, "regulatory_element"}}},
         {31, "multipolygon", "parking", {{"way", 22, "outer"}, {"way", 23, "outer"}, {"way", 24, "inner"}, {"relation", 33, "regulatory_element"}}},
         {32, "lanelet", "road", {{"way", 21, "left"}, {"way", 28, "right"}, {"relation", 34, "regulatory_element"}}},
         {33, "regulatory_element", "regulatory_element", {{"relation", 30, "refers"}, {"relation", 31, "refers"}, {"relation", 32, "x"}, {"way", 20, "x"}, {"way", 26, "x"}, {"node", 1, "x"}}},
         {34, "regulatory_element", "traffic_light", {{"way", 27, "refers"}, {"way", 20, "ref_line"}}}};
  return d;
}
std::string xml(const Doc& d) {
  std::string s = "<?xml version=\"1.0\"?>\n<osm version=\"0.6\">\n";
  auto del = [](bool b) { return b ? std::string(" action=\"delete\"") : std::string(); };
  auto tag = [](const std::string& k, const std::string& v) { return "<tag k=\"" + k + "\" v=\"" + v + "\"/>"; };
  for (auto& n : d.n) s += "<node id=\"" + std::to_string(n.id) + "\"" + del(n.del) + " lat=\"" + std::to_string((int)n.x) + "\" lon=\"" + std::to_string((int)n.y) + "\">" + tag("n", "v") + "</node>\n";
  for (auto& w : d.w) {
    s += "<way id=\"" + std::to_string(w.id) + "\"" + del(w.del) + ">";
    for (Id r : w.refs) s += "<nd ref=\"" + std::to_string(r) + "\"/>";
    if (w.area) s += tag("area", "yes");
    s += tag("w", "v") + "</way>\n";
  }
  for (auto& r : d.r) {
    s += "<relation id=\"" + std::to_string(r.id) + "\"" + del(r.del) + ">";
    for (auto& m : r.m) s += "<member type=\"" + m.type + "\" ref=\"" + std::to_string(m.ref) + "\" role=\"" + m.role + "\"/>";
    if (!r.type.empty()) s += tag("type", r.type);
    if (!r.subtype.empty()) s += tag("subtype", r.subtype);
    s += "</relation>\n";
  }
  return s + "</osm>\n";
}
int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
// ---- damage
bool g_dup;
void damage(Doc& d, int level) {
  // level 0: everything; level 1: the kinds that interact
  int kind = pick("damage", 0, level ? 9 : 14);
  auto rel = [&]() -> Rel& { return d.r[pick("relation", 0, d.r.size() - 1)]; };
  auto way = [&]() -> W& { return d.w[pick("way", 0, d.w.size() - 1)]; };
  auto mem = [&](Rel& r) -> M& { ASSUME(!r.m.empty()); return r.m[pick("member", 0, r.m.size() - 1)]; };
  switch (kind) {
    case 0: { auto& n = d.n[pick("node", 0, d.n.size() - 1)]; n.del = true; break; }
    case 1: way().del = true; break;
    case 2: { int k = pick("relation", 0, d.r.size() - 1); d.r.erase(d.r.begin() + k); break; }
    case 3: { auto& m = mem(rel()); m.ref = 99; REACH("dangling reference"); break; }
    case 4: { auto& r = rel(); ASSUME(!r.m.empty()); r.m.erase(r.m.begin() + pick("member", 0, r.m.size() - 1)); break; }
    case 5: { auto& r = rel(); auto m = mem(r); r.m.push_back(m); break; }
    case 6: { auto& w = way(); ASSUME(!w.refs.empty()); w.refs[pick("nd", 0, w.refs.size() - 1)] = 98; break; }
    case 7: { auto& r = rel(); r.type = pick("new type", 0, 1) ? "" : r.type == "lanelet" ? "multipolygon" : "lanelet"; break; }
    case 8: { auto& w = way(); w.area = !w.area; break; }
    case 9: { auto& m = mem(rel()); static const char* t[] = {"node", "way", "relation", "thing", ""}; m.type = t[pick("type", 0, 4)]; REACH("wrong type"); break; }
    case 10: { auto& w = way(); if (sym_bool("all nodes")) w.refs.clear(); else w.refs.resize(std::min<size_t>(w.refs.size(), 1)); break; }
    case 11: { auto& m = mem(rel()); int k = pick("target", 0, (int)(d.w.size() + d.r.size() - 1)); m.ref = k < (int)d.w.size() ? d.w[k].id : d.r[k - d.w.size()].id; if (sym_bool("fix type")) m.type = k < (int)d.w.size() ? "way" : "relation"; REACH("other element"); break; }
    case 12: { auto& m = mem(rel()); static const char* r[] = {"left", "right", "outer", "inner", "centerline", "regulatory_element", "refers", "ref_line", ""}; m.role = r[pick("role", 0, 8)]; REACH("wrong role"); break; }
    case 13: { auto& r = rel(); r.subtype = sym_bool("no subtype") ? "" : "unheard of"; break; }
    case 14: { auto& n = d.n[pick("node", 0, d.n.size() - 1)]; n.x = 77; REACH("projection fails"); break; }
  }
}
// ---- expectation
struct Expect {
  const Doc& d;
  std::map<Id, const N*> nodes; std::map<Id, const W*> ways; std::map<Id, const Rel*> rels;  // as in the document
  std::set<Id> points, lines, polys;                    // must be loaded exactly
  std::set<Id> shaky;                                   // ways with a point that can not be projected: may be loaded with a placeholder
  std::map<Id, std::vector<M>> mem;                     // members that resolve
  std::set<Id> direct;                                  // elements with a problem of their own
  std::set<Id> affected;                                // ... or that refer to one
  std::map<Id, std::vector<std::vector<Id>>> rings;     // areas: expected outer ring, then holes
  explicit Expect(const Doc& d) : d(d) {
    for (auto& n : d.n) if (!n.del) nodes[n.id] = &n;
    for (auto& w : d.w) if (!w.del) ways[w.id] = &w;
    for (auto& r : d.r) if (!r.del) rels[r.id] = &r;
    for (auto& n : nodes) if (n.second->x == 77) direct.insert(n.first); else points.insert(n.first);
    for (auto& w : ways) {
      bool ok = !w.second->refs.empty(), soft = false;
      for (Id r : w.second->refs) { ok &= nodes.count(r) > 0; soft |= nodes.count(r) && !points.count(r); }
      if (!ok || soft) direct.insert(w.first);
      if (!ok) continue;
      if (soft) shaky.insert(w.first);
      (w.second->area ? polys : lines).insert(w.first);
    }
    for (auto& r : rels) for (auto& m : r.second->m) {
      bool ok = m.type == "node" ? nodes.count(m.ref) : m.type == "way" ? ways.count(m.ref) : m.type == "relation" ? rels.count(m.ref) : 0;
      if (ok) mem[r.first].push_back(m); else direct.insert(r.first);
    }
    for (auto& r : rels) {
      auto& type = r.second->type;
      auto& ms = mem[r.first];
      bool ok = true;
      if (type == "lanelet") {
        for (std::string role : {"left", "right", "centerline"}) {
          int n = 0, good = 0;
          for (auto& m : ms) if (m.role == role) { n++; good += m.type == "way" && lines.count(m.ref); }
          if (role == "centerline" && n == 0) continue;
          ok &= n == 1 && good == 1;
        }
        for (auto& m : ms) if (m.role == "regulatory_element") ok &= m.type == "relation" && rels[m.ref]->type == "regulatory_element";
      } else if (type == "multipolygon") {
        std::vector<Id> outer, inner;
        for (auto& m : ms) if (m.role == "outer" || m.role == "inner") {
          if (m.type == "way" && lines.count(m.ref)) (m.role == "outer" ? outer : inner).push_back(m.ref); else ok = false;
        }
        for (auto& m : ms) if (m.role == "regulatory_element") ok &= m.type == "relation" && rels[m.ref]->type == "regulatory_element";
        std::vector<std::vector<Id>> rg;
        if (!ring(outer)) ok = false;
        rg.push_back(outer);
        std::vector<Id> open;
        for (Id i : inner) { auto& w = *ways[i]; if (w.refs.front() == w.refs.back()) { rg.push_back({i}); ok &= ring({i}); } else open.push_back(i); }
        if (!open.empty()) { ok &= ring(open); rg.push_back(open); }
        rings[r.first] = rg;
      } else if (type == "regulatory_element") {
        ok &= r.second->subtype == "regulatory_element" || r.second->subtype == "traffic_light";
        int refers = 0, ref = 0;
        for (auto& m : ms) {
          bool wayOk = m.type == "way" && (lines.count(m.ref) || polys.count(m.ref));
          if (m.role == "refers") refers += wayOk || (m.type == "way" && 0);
          if (m.role == "ref_line") ref += m.type == "way" && lines.count(m.ref);
          if (m.type == "way") ok &= wayOk;
          if (m.type == "node") ok &= points.count(m.ref) > 0;
          if (m.type == "relation") ok &= rels[m.ref]->type == "lanelet" || rels[m.ref]->type == "multipolygon";
        }
        if (r.second->subtype == "traffic_light") ok &= refers > 0 && ref <= 1;
      }
      if (!ok) direct.insert(r.first);
    }
    affected = direct;
    for (auto& r : rels) for (auto& m : mem[r.first]) if (m.type == "way" && shaky.count(m.ref)) affected.insert(r.first);
    for (bool more = true; more;) {
      more = false;
      for (auto& r : rels) if (!affected.count(r.first)) for (auto& m : mem[r.first]) if (m.type == "relation" && affected.count(m.ref)) { affected.insert(r.first); more = true; break; }
    }
  }
  // all line strings together form one closed ring without self-intersection
  bool ring(std::vector<Id> ids) {
    if (ids.empty()) return false;
    std::sort(ids.begin(), ids.end());
    do {
      for (int inv = 0; inv < (1 << ids.size()); inv++) {
        std::vector<Id> pts; bool ok = true;
        for (size_t k = 0; k < ids.size() && ok; k++) {
          auto r = ways[ids[k]]->refs;
          if (inv >> k & 1) std::reverse(r.begin(), r.end());
          if (!pts.empty() && pts.back() != r.front()) ok = false;
          pts.insert(pts.end(), r.begin() + (pts.empty() ? 0 : 1), r.end());
        }
        if (!ok || pts.front() != pts.back()) continue;
        pts.pop_back();
        if (pts.size() < 3 || std::set<Id>(pts.begin(), pts.end()).size() != pts.size()) continue;
        return true;   // every ring of distinct corners of the base document is simple: checked by simple()
      }
    } while (std::next_permutation(ids.begin(), ids.end()));
    return false;
  }
};
struct PX : RuleParameterVisitor {
  LaneletMap& m; std::vector<Id> ids; bool own = true;
  explicit PX(LaneletMap& m) : m(m) {}
  void operator()(const ConstPoint3d& p) override { ids.push_back(p.id()); own &= m.pointLayer.exists(p.id()); }
  void operator()(const ConstLineString3d& l) override { ids.push_back(l.id()); own &= m.lineStringLayer.exists(l.id()); }
  void operator()(const ConstPolygon3d& p) override { ids.push_back(p.id()); own &= m.polygonLayer.exists(p.id()); }
  void operator()(const ConstWeakLanelet& l) override { if (!l.expired()) { ids.push_back(l.lock().id()); own &= m.laneletLayer.exists(ids.back()); } }
  void operator()(const ConstWeakArea& a) override { if (!a.expired()) { ids.push_back(a.lock().id()); own &= m.areaLayer.exists(ids.back()); } }
};
void walk(LaneletMap& m) {   // using the loaded map does not crash
  size_t n = 0;
  for (auto& l : m.laneletLayer) { n += l.leftBound().size() + l.rightBound().size() + l.centerline().size() + m.laneletLayer.findUsages(l.leftBound()).size() + l.polygon2d().size(); for (auto& r : l.regulatoryElements()) n += m.laneletLayer.findUsages(r).size() + r->id(); }
  for (auto& a : m.areaLayer) { n += a.outerBoundPolygon().size() + a.innerBounds().size(); for (auto& r : a.regulatoryElements()) n += r->id(); }
  for (auto& r : m.regulatoryElementLayer) { PX x(m); r->applyVisitor(x); n += x.ids.size(); }
  n += m.laneletLayer.search(BoundingBox2d(BasicPoint2d(-100, -100), BasicPoint2d(100, 100))).size();
  n += m.laneletLayer.nearest(BasicPoint2d(0, 0), 2).size() + m.areaLayer.nearest(BasicPoint2d(0, 0), 2).size() + m.lineStringLayer.nearest(BasicPoint2d(0, 0), 2).size();
  CHECK(n < 100000, "map is usable");
}
}  // namespace
void sym_harness() {
  int count = PARAM("damages", 1);
  Doc d = base();
  for (int i = 0; i < count; i++) damage(d, PARAM("level", 0));
  Ident proj(Origin(GPSPoint{0, 0, 0}));
  std::string f = "/tmp/lanelet2_verif_" + std::to_string(getpid()) + ".osm";
  { FILE* o = fopen(f.c_str(), "w"); auto s = xml(d); fwrite(s.data(), 1, s.size(), o); fclose(o); }
  ErrorMessages errs;
  std::unique_ptr<LaneletMap> map = load(f, proj, &errs);
  bool threw = false;
  try { load(f, proj); } catch (ParseError&) { threw = true; }
  unlink(f.c_str());
  CHECK(threw == !errs.empty(), "the throwing interface throws exactly when problems are reported");
  Expect e(d);
  // every problem is reported for the element that has it
  std::set<Id> reported;
  for (auto& s : errs) for (const char* key : {"primitive with id ", "primitive "}) {
    auto p = s.find(key);
    if (p == std::string::npos) continue;
    p += std::string(key).size();
    Id id = 0; bool any = false;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') { id = id * 10 + (s[p++] - '0'); any = true; }
    if (any) reported.insert(id);
  }
  for (Id i : e.direct) { CHECK(reported.count(i), "problem is reported"); REACH("reported"); }
  for (Id i : reported) CHECK(e.affected.count(i), "only problems are reported");
  if (e.direct.empty()) { CHECK(errs.empty(), "no report without a problem"); REACH("harmless"); }
  // everything not affected is loaded, nothing else
  auto& m = *map;
  CHECK(m.pointLayer.size() == e.points.size(), "points loaded");
  for (Id i : e.points) CHECK(m.pointLayer.exists(i) && m.pointLayer.get(i).x() == e.nodes[i]->x && m.pointLayer.get(i).y() == e.nodes[i]->y && m.pointLayer.get(i).attributeOr("n", std::string()) == "v", "point loaded");
  if (e.shaky.empty()) CHECK(m.lineStringLayer.size() == e.lines.size() && m.polygonLayer.size() == e.polys.size(), "line strings and polygons loaded");
  for (Id i : e.lines) {
    if (e.shaky.count(i)) continue;
    CHECK(m.lineStringLayer.exists(i), "line string loaded");
    auto l = m.lineStringLayer.get(i); auto& w = *e.ways[i];
    CHECK(l.size() == w.refs.size() && l.attributeOr("w", std::string()) == "v", "points of a line string");
    for (size_t k = 0; k < l.size(); k++) CHECK(l[k].id() == w.refs[k] && l[k].constData() == m.pointLayer.get(w.refs[k]).constData(), "points of a line string");
  }
  for (Id i : e.polys) {
    if (e.shaky.count(i)) continue;
    CHECK(m.polygonLayer.exists(i), "polygon loaded");
    auto l = m.polygonLayer.get(i); auto& w = *e.ways[i];
    CHECK(l.size() == w.refs.size(), "points of a polygon");
    for (size_t k = 0; k < l.size(); k++) CHECK(l[k].id() == w.refs[k], "points of a polygon");
  }
  size_t nl = 0, na = 0, nr = 0;
  auto regs = [&](Id id, const auto& list, bool all) {
    std::vector<Id> want, have;
    for (auto& x : e.mem[id]) if (x.role == "regulatory_element") want.push_back(x.ref);
    for (auto& r : list) { CHECK(!!r, "attached rule exists"); have.push_back(r->id()); }
    if (all) { CHECK(want == have, "attached rules"); for (auto& r : list) CHECK(m.regulatoryElementLayer.exists(r->id()) && m.regulatoryElementLayer.get(r->id()) == r, "attached rule is in the map"); }
  };
  for (auto& kv : e.rels) {
    Id i = kv.first; auto& r = *kv.second;
    bool direct = e.direct.count(i), aff = e.affected.count(i);
    if (!e.shaky.empty() && aff) direct = true;
    if (r.type == "lanelet") {
      nl++;
      if (direct) continue;
      CHECK(m.laneletLayer.exists(i), "lanelet loaded");
      auto l = m.laneletLayer.get(i);
      for (auto& x : e.mem[i]) {
        if (x.role == "left") CHECK(l.leftBound().id() == x.ref && l.leftBound().constData() == m.lineStringLayer.get(x.ref).constData(), "left bound");
        if (x.role == "right") CHECK(l.rightBound().id() == x.ref && l.rightBound().constData() == m.lineStringLayer.get(x.ref).constData(), "right bound");
        if (x.role == "centerline") CHECK(l.hasCustomCenterline() && l.centerline().id() == x.ref, "centre line");
      }
      CHECK(l.attributeOr("subtype", std::string()) == r.subtype, "attributes of a lanelet");
      regs(i, l.regulatoryElements(), !aff);
    } else if (r.type == "multipolygon") {
      na++;
      if (direct) continue;
      CHECK(m.areaLayer.exists(i), "area loaded");
      auto a = m.areaLayer.get(i);
      auto ids = [](const LineStrings3d& x) { std::vector<Id> v; for (auto& l : x) v.push_back(l.id()); std::sort(v.begin(), v.end()); return v; };
      auto sorted = [](std::vector<Id> v) { std::sort(v.begin(), v.end()); return v; };
      auto& rg = e.rings[i];
      CHECK(ids(a.outerBound()) == sorted(rg[0]), "outer border of an area");
      CHECK(a.innerBounds().size() == rg.size() - 1, "holes of an area");
      for (auto& h : a.innerBounds()) { bool found = false; for (size_t k = 1; k < rg.size(); k++) found |= ids(h) == sorted(rg[k]); CHECK(found, "hole of an area"); }
      regs(i, a.regulatoryElements(), !aff);
    } else if (r.type == "regulatory_element") {
      nr++;
      if (direct) continue;
      CHECK(m.regulatoryElementLayer.exists(i), "rule loaded");
      auto g = m.regulatoryElementLayer.get(i);
      PX x(m); g->applyVisitor(x);
      std::vector<Id> want; for (auto& y : e.mem[i]) want.push_back(y.ref);
      std::sort(want.begin(), want.end()); std::sort(x.ids.begin(), x.ids.end());
      if (!aff) { CHECK(x.ids == want, "references of a rule"); CHECK(x.own, "references of a rule are in the map"); }
      else CHECK(std::includes(want.begin(), want.end(), x.ids.begin(), x.ids.end()), "references of a rule");
    }
  }
  CHECK(m.laneletLayer.size() <= nl && m.areaLayer.size() <= na && m.regulatoryElementLayer.size() <= nr, "nothing added");
  walk(m);
}
