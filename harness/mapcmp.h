// structural comparison of two maps (oracle of I01-I03): everything that can be observed through the public interface
#pragma once
#include "h.h"
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <algorithm>
#include <typeinfo>
namespace {
struct Par { int kind; Id id; bool inv; const void* data; };
struct ParEx : RuleParameterVisitor {
  std::vector<Par> out;
  void operator()(const ConstPoint3d& p) override { out.push_back({0, p.id(), false, p.constData().get()}); }
  void operator()(const ConstLineString3d& l) override { out.push_back({1, l.id(), l.inverted(), l.constData().get()}); }
  void operator()(const ConstPolygon3d& p) override { out.push_back({2, p.id(), false, p.constData().get()}); }
  void operator()(const ConstWeakLanelet& l) override { if (l.expired()) out.push_back({5, 0, false, nullptr}); else out.push_back({3, l.lock().id(), l.lock().inverted(), l.lock().constData().get()}); }
  void operator()(const ConstWeakArea& a) override { if (a.expired()) out.push_back({5, 0, false, nullptr}); else out.push_back({4, a.lock().id(), false, a.lock().constData().get()}); }
};
struct MapCmp {
  bool strict;   // binary format: orientation of everything is stored; otherwise (OSM) only what the format can express
  const LaneletMap &a, &b;
  void attrs(const AttributeMap& x, const AttributeMap& y, const char* m) {
    size_t n = 0, k = 0;
    auto skip = [&](const std::string& s) { return !strict && (s == "type" || s == "area"); };
    for (auto& e : x) if (!skip(e.first)) { n++; auto it = y.find(e.first); CHECK(it != y.end() && it->second.value() == e.second.value(), m); }
    for (auto& e : y) k += !skip(e.first);
    CHECK(n == k, m);
    if (!strict) for (const char* s : {"type", "area"}) { auto it = x.find(s); if (it != x.end()) CHECK(y.find(s) != y.end() && y.find(s)->second.value() == it->second.value(), m); }
  }
  static std::vector<std::pair<Id, bool>> seq(const ConstLineStrings3d& r) { std::vector<std::pair<Id, bool>> v; for (auto& l : r) v.emplace_back(l.id(), l.inverted()); return v; }
  void ring(const ConstLineStrings3d& x, const ConstLineStrings3d& y, const char* m) {
    auto s = seq(x), t = seq(y);
    CHECK(s.size() == t.size(), m);
    bool ok = false;
    for (size_t r = 0; r < (strict ? 1 : s.size()); r++) {   // the OSM format stores a ring without a first element
      ok |= s == t;
      std::rotate(t.begin(), t.begin() + 1, t.end());
    }
    CHECK(ok, m);
    for (auto& l : y) CHECK(b.lineStringLayer.get(l.id()).constData() == l.constData(), "border of an area is the line string of the map");
  }
  template <typename R> void regs(const R& x, const R& y) {
    CHECK(x.size() == y.size(), "number of attached rules");
    for (size_t i = 0; i < x.size(); i++) {
      CHECK(x[i]->id() == y[i]->id(), "attached rules in the same order");
      CHECK(b.regulatoryElementLayer.exists(y[i]->id()) && b.regulatoryElementLayer.get(y[i]->id()) == y[i], "attached rule is the rule of the map");
    }
  }
  void points(const ConstLineString3d& x, const ConstLineString3d& y) {
    CHECK(x.size() == y.size(), "number of points");
    for (size_t i = 0; i < x.size(); i++) {
      CHECK(x[i].id() == y[i].id(), "order of points");
      CHECK(b.pointLayer.exists(y[i].id()) && b.pointLayer.get(y[i].id()).constData() == y[i].constData(), "point is the point of the map");
    }
  }
  static ConstLineString3d fwd(const ConstLineString3d& l) { return l.inverted() ? l.invert() : l; }
  void compare() {
    CHECK(a.pointLayer.size() == b.pointLayer.size() && a.lineStringLayer.size() == b.lineStringLayer.size() && a.polygonLayer.size() == b.polygonLayer.size() &&
          a.laneletLayer.size() == b.laneletLayer.size() && a.areaLayer.size() == b.areaLayer.size() && a.regulatoryElementLayer.size() == b.regulatoryElementLayer.size(), "nothing added or lost");
    for (const auto& p : a.pointLayer) {
      CHECK(b.pointLayer.exists(p.id()), "point exists");
      ConstPoint3d q = b.pointLayer.get(p.id());
      CHECK(p.x() == q.x() && p.y() == q.y() && p.z() == q.z(), "coordinates of a point");
      attrs(p.attributes(), q.attributes(), "attributes of a point");
    }
    for (const auto& l : a.lineStringLayer) {
      CHECK(b.lineStringLayer.exists(l.id()), "line string exists");
      ConstLineString3d k = b.lineStringLayer.get(l.id());
      points(fwd(l), fwd(k));
      attrs(l.attributes(), k.attributes(), "attributes of a line string");
    }
    for (const auto& l : a.polygonLayer) {
      CHECK(b.polygonLayer.exists(l.id()), "polygon exists");
      ConstPolygon3d k = b.polygonLayer.get(l.id());
      CHECK(l.size() == k.size(), "number of points of a polygon");
      for (size_t i = 0; i < l.size(); i++) CHECK(l[i].id() == k[i].id() && b.pointLayer.exists(k[i].id()) && b.pointLayer.get(k[i].id()).constData() == k[i].constData(), "points of a polygon");
      attrs(l.attributes(), k.attributes(), "attributes of a polygon");
    }
    for (const auto& l : a.laneletLayer) {
      CHECK(b.laneletLayer.exists(l.id()), "lanelet exists");
      ConstLanelet k = b.laneletLayer.get(l.id());
      CHECK(l.leftBound().id() == k.leftBound().id() && l.rightBound().id() == k.rightBound().id(), "bounds of a lanelet");
      CHECK(l.leftBound().inverted() == k.leftBound().inverted() && l.rightBound().inverted() == k.rightBound().inverted(), "orientation of the bounds of a lanelet");
      CHECK(b.lineStringLayer.get(k.leftBound().id()).constData() == k.leftBound().constData() && b.lineStringLayer.get(k.rightBound().id()).constData() == k.rightBound().constData(), "bound is the line string of the map");
      CHECK(l.hasCustomCenterline() == k.hasCustomCenterline(), "custom centre line");
      if (l.hasCustomCenterline()) {
        CHECK(l.centerline().id() == k.centerline().id() && l.centerline().inverted() == k.centerline().inverted(), "custom centre line and its orientation");
        CHECK(b.lineStringLayer.get(k.centerline().id()).constData() == k.centerline().constData(), "centre line is the line string of the map");
      }
      attrs(l.attributes(), k.attributes(), "attributes of a lanelet");
      regs(l.regulatoryElements(), k.regulatoryElements());
    }
    for (const auto& x : a.areaLayer) {
      CHECK(b.areaLayer.exists(x.id()), "area exists");
      ConstArea y = b.areaLayer.get(x.id());
      ring(x.outerBound(), y.outerBound(), "outer border of an area");
      auto xi = x.innerBounds(), yi = y.innerBounds();
      CHECK(xi.size() == yi.size(), "number of holes");
      for (size_t i = 0; i < xi.size(); i++) ring(xi[i], yi[i], "hole of an area");
      attrs(x.attributes(), y.attributes(), "attributes of an area");
      regs(x.regulatoryElements(), y.regulatoryElements());
    }
    for (const auto& r : a.regulatoryElementLayer) {
      CHECK(b.regulatoryElementLayer.exists(r->id()), "rule exists");
      auto s = b.regulatoryElementLayer.get(r->id());
      CHECK(std::string(typeid(*r).name()) == typeid(*s).name(), "type of a rule");
      attrs(r->attributes(), s->attributes(), "attributes of a rule");
      auto p = r->getParameters(), q = s->getParameters();
      for (auto& kv : p) if (!kv.second.empty()) CHECK(q.find(kv.first) != q.end(), "role of a rule");
      for (auto& kv : q) {
        if (kv.second.empty()) continue;
        auto it = p.find(kv.first);
        CHECK(it != p.end() && it->second.size() == kv.second.size(), "references of a rule");
        ParEx ex, ey;
        for (auto& e : it->second) boost::apply_visitor(ex, e);
        for (auto& e : kv.second) boost::apply_visitor(ey, e);
        for (size_t i = 0; i < ex.out.size(); i++) {
          auto &u = ex.out[i], &v = ey.out[i];
          CHECK(u.kind == v.kind && u.id == v.id, "reference of a rule with its role");
          if (strict) CHECK(u.inv == v.inv, "orientation of a reference");
          const void* own = v.kind == 0 ? (const void*)b.pointLayer.get(v.id).constData().get() : v.kind == 1 ? (const void*)b.lineStringLayer.get(v.id).constData().get()
                          : v.kind == 2 ? (const void*)b.polygonLayer.get(v.id).constData().get() : v.kind == 3 ? (const void*)b.laneletLayer.get(v.id).constData().get()
                          : v.kind == 4 ? (const void*)b.areaLayer.get(v.id).constData().get() : nullptr;
          CHECK(own == v.data, "reference leads to the element of the map");
        }
      }
    }
  }
};
void compareMaps(const LaneletMap& a, const LaneletMap& b, bool strict) { MapCmp c{strict, a, b}; c.compare(); }
}  // namespace
