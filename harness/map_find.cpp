// C04: box search, nearest, iterative and exact searches on every layer against a linear scan with exact integer geometry
#include "geo.h"
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/BoundingBox.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>
namespace {
using V = std::vector<IP>;
using Gen = GenericRegulatoryElement;
Id nid = 500;
Points3d pts(const V& v) { Points3d p; for (IP q : v) p.emplace_back(nid++, double(q.x), double(q.y), double(q.z)); return p; }
LineString3d ls(const V& v) { auto p = pts(v); return LineString3d(nid++, p); }
// an element of the scan: id, bounding box, true squared distance to q
struct Elem { Id id; V hull; bool ring; std::vector<V> parts; };  // parts: only for rules (rings have > 2 vertices and first == last)
I boxD2(const V& h, IP q) { I x0 = h[0].x, x1 = x0, y0 = h[0].y, y1 = y0; for (IP p : h) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); } I dx = q.x < x0 ? x0 - q.x : q.x > x1 ? q.x - x1 : 0, dy = q.y < y0 ? y0 - q.y : q.y > y1 ? q.y - y1 : 0; return dx * dx + dy * dy; }
bool boxMeets(const V& h, IP a, IP b) { I x0 = h[0].x, x1 = x0, y0 = h[0].y, y1 = y0; for (IP p : h) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); } return x0 <= b.x && x1 >= a.x && y0 <= b.y && y1 >= a.y; }
Q lineD2(const V& v, IP q) { Q m = v.size() == 1 ? footOn(v[0], v[0], q).d2 : Q{1000000, 1}; for (size_t i = 0; i + 1 < v.size(); i++) { Q d = footOn(v[i], v[i + 1], q).d2; if (lt(d, m)) m = d; } return m; }
Q shapeD2(const V& v, bool ring, IP q) { if (!ring) return lineD2(v, q); if (strictlyIn(v, q)) return {0, 1}; V c = v; c.push_back(v[0]); return lineD2(c, q); }
Q trueD2(const Elem& e, IP q) { if (e.parts.empty()) return shapeD2(e.hull, e.ring, q); Q m{1000000, 1}; for (auto& p : e.parts) { Q d = shapeD2(p, p.size() > 2, q); if (lt(d, m)) m = d; } return m; }
template <typename P> Id pid(const P& p) { return traits::getId(p); }

template <typename Layer> void scan(Layer& layer, const std::vector<Elem>& el, IP q, IP a, IP b, unsigned n, int stop) {
  using Prim = traits::LayerPrimitiveType<Layer>;
  BasicPoint2d bq(q.x, q.y); BoundingBox2d box(BasicPoint2d(a.x, a.y), BasicPoint2d(b.x, b.y));
  auto find = [&](Id id) -> const Elem& { for (auto& e : el) if (e.id == id) return e; CHECK(false, "the element is part of the layer"); return el[0]; };
  {  // box search
    auto r = layer.search(box); size_t in = 0;
    for (auto& e : el) { bool m = boxMeets(e.hull, a, b); in += m; int c = 0; for (auto& x : r) c += pid(x) == e.id; CHECK(c == m, "box search finds exactly the elements whose bounding box intersects the area"); }
    CHECK(r.size() == in, "box search finds nothing else");
    if (in) REACH("in the box"); else REACH("box misses");
    int k = 0; std::set<Id> seen; Id last = 0;
    auto u = layer.searchUntil(box, [&](auto& bb, const auto& x) { CHECK(seen.insert(pid(x)).second, "the iteration passes each element once"); CHECK(boxMeets(find(pid(x)).hull, a, b), "the iteration passes elements in the area only"); last = pid(x); return ++k == stop; });
    CHECK(!!u == (stop > 0 && size_t(stop) <= in), "iterative box search ends at the element that fulfils the predicate, or finds none");
    if (u) CHECK(pid(*u) == last && k == stop, "iterative box search returns the element that fulfilled the predicate"); else CHECK(size_t(k) == in, "iterative box search passes all elements");
  }
  {  // nearest bounding boxes
    auto r = layer.nearest(bq, n);
    CHECK(r.size() == std::min<size_t>(n, el.size()), "nearest returns the requested number of elements");
    std::vector<I> all, got; for (auto& e : el) all.push_back(boxD2(e.hull, q)); for (auto& x : r) got.push_back(boxD2(find(pid(x)).hull, q));
    std::sort(all.begin(), all.end()); std::sort(got.begin(), got.end()); all.resize(r.size());
    CHECK(all == got, "nearest returns the elements with the smallest bounding box distance");
    std::set<Id> ids; for (auto& x : r) ids.insert(pid(x)); CHECK(ids.size() == r.size(), "nearest returns no element twice");
    int k = 0; Id last = 0; I ld = -1; std::set<Id> seen;
    auto u = layer.nearestUntil(bq, [&](auto& bb, const auto& x) { I d = boxD2(find(pid(x)).hull, q); CHECK(d >= ld, "the iteration runs in the order of the bounding box distance"); CHECK(near(geometry::distance(bb, bq) * geometry::distance(bb, bq), double(d)), "the box passed to the predicate is the one of the element"); ld = d; CHECK(seen.insert(pid(x)).second, "the iteration passes each element once"); last = pid(x); return ++k == stop; });
    CHECK(!!u == (stop > 0 && size_t(stop) <= el.size()), "iterative nearest search ends at the element that fulfils the predicate, or finds none");
    if (u) CHECK(pid(*u) == last && k == stop, "iterative nearest search returns the element that fulfilled the predicate"); else CHECK(size_t(k) == el.size(), "iterative nearest search passes all elements");
  }
}
template <typename Layer> void exact(Layer& layer, const std::vector<Elem>& el, IP q, int n, I m2, double m) {
  BasicPoint2d bq(q.x, q.y);
  std::vector<Q> all; for (auto& e : el) all.push_back(trueD2(e, q));
  std::sort(all.begin(), all.end(), [](Q x, Q y) { return lt(x, y); });
  auto dist = [&](Id id) { for (auto& e : el) if (e.id == id) return trueD2(e, q); return Q{-1, 1}; };
  auto f = geometry::findNearest(layer, bq, unsigned(n));
  CHECK(f.size() == std::min<size_t>(n, el.size()), "the exact nearest search returns the requested number of elements");
  std::set<Id> ids;
  for (size_t i = 0; i < f.size(); i++) {
    CHECK(ids.insert(pid(f[i].second)).second, "the exact nearest search returns no element twice");
    CHECK(near(f[i].first, std::sqrt(val(all[i]))), "the exact nearest search returns the smallest true distances in order");
    CHECK(eq(dist(pid(f[i].second)), all[i]), "the element returned by the exact nearest search has the stated distance");
  }
}
template <typename Layer> void within(Layer& layer, const std::vector<Elem>& el, IP q, Q m2, double m) {
  BasicPoint2d bq(q.x, q.y);
  auto w = geometry::findWithin2d(layer, bq, m);
  size_t cnt = 0; std::set<Id> ids; double last = 0;
  for (auto& x : w) { CHECK(ids.insert(pid(x.second)).second, "the within search returns no element twice"); CHECK(x.first >= last, "the within search is sorted by distance"); last = x.first; }
  for (auto& e : el) {
    Q d = trueD2(e, q); bool in = ids.count(e.id);
    if (in) { cnt++; for (auto& x : w) if (pid(x.second) == e.id) CHECK(near(x.first, std::sqrt(val(d))), "the within search reports true distances"); }
    if (lt(d, m2) || d.n == 0) { CHECK(in, "the within search finds every element in range"); REACH("within"); }
    else if (lt(m2, d)) CHECK(!in, "the within search finds elements in range only");
  }
  CHECK(cnt == ids.size(), "the within search finds nothing else");
}
V shape(int s, int z) {  // clockwise rings for 3 or more points
  static const V S[] = {{{0, 0}, {2, 1}}, {{0, 0}, {0, 2}, {1, 0}}, {{-1, 0}, {0, 3}, {1, 0}, {0, 1}}, {{0, 0}, {-1, 0}, {-1, 1}, {0, 1}}, {{0, 0}, {0, 3}}, {{0, 0}, {3, 0}, {3, 2}}};
  return S[s];
}
V moved(V v, IP o, int z = 0) { for (IP& p : v) { p.x += o.x; p.y += o.y; p.z += z; } return v; }
V rev(V v) { std::reverse(v.begin(), v.end()); return v; }
// the outer bound consists of two line strings, either way round
LineStrings3d outer(const V& r, bool inv) { V a(r.begin(), r.begin() + 2), b(r.begin() + 1, r.end()); return {inv ? ls(rev(a)).invert() : ls(a), inv ? ls(rev(b)).invert() : ls(b)}; }
Lanelet lane(const V& ring) { auto k = ring.size() / 2; return Lanelet(nid++, ls(V(ring.begin(), ring.begin() + k)), ls(rev(V(ring.begin() + k, ring.end())))); }
}  // namespace

extern "C" void sym_harness() {
  int mode = PARAM("mode", 0);
  if (mode == 0) {  // small layers of every kind
    int kind = PARAM("kind", -1); if (kind < 0) kind = sym_concrete(sym_int("kind", 0, 5));
    int fill = sym_concrete(sym_int("built at once", 0, 1));
    int N = PARAM("N", 3);
    std::vector<Elem> el; Points3d ps; LineStrings3d l; Polygons3d pg; Lanelets ll; Areas ar; std::vector<RegulatoryElementPtr> re;
    static const IP O[] = {{0, 0}, {3, 1}, {1, 1}, {-3, 2}};
    for (int i = 0; i < N; i++) {
      Id id = 100 + i;
      IP o = i == 0 ? IP{0, 0} : O[sym_concrete(sym_int("place", 0, 3))];
      int s = sym_concrete(sym_int("shape", 0, kind == 0 ? 0 : i == 0 ? (kind == 1 ? 2 : 1) : 0));
      if (kind == 0) { V v{o}; el.push_back({id, v, false, {}}); ps.emplace_back(id, double(o.x), double(o.y), 0.); }
      if (kind == 1) { V v = moved(shape(s == 1 ? 5 : s == 2 ? 4 : 0, 0), o); if (i == 1) v = V{o}; el.push_back({id, v, false, {}}); auto x = ls(v); x.setId(id); l.push_back(i == 2 ? x.invert() : x); }
      if (kind == 2) { V v = moved(shape(s == 1 ? 2 : i == 2 ? 3 : 1, 0), o); el.push_back({id, v, true, {}}); auto p = pts(v); pg.emplace_back(id, p); }
      if (kind == 3) { V v = moved(shape(s == 1 ? 2 : 3, 0), o); el.push_back({id, v, true, {}}); auto x = lane(v); x.setId(id); ll.push_back(i == 2 ? x.invert() : x); }
      if (kind == 4) { V v = moved(shape(s == 1 ? 2 : i == 2 ? 1 : 3, 0), o); el.push_back({id, v, true, {}}); ar.emplace_back(id, outer(v, i == 1)); }
      if (kind == 5) {
        auto g = std::make_shared<Gen>(id); Elem e{id, {}, false, {}};
        V a = moved(shape(i == 1 ? 4 : 0, 0), o), b = moved(shape(3, 0), {o.x + 2, o.y - 1});
        if (i != 1) { g->addParameter("a", i == 2 ? ls(a).invert() : ls(a)); e.parts.push_back(a); }
        if (i == 0 && s == 1) { e.parts.push_back(b); ar.emplace_back(nid++, outer(b, fill)); g->addParameter("b", ar.back()); }
        if (i == 1) { e.parts.push_back({o}); g->addParameter("c", Point3d(nid++, double(o.x), double(o.y), 0)); e.parts.push_back(b); ll.push_back(lane(b)); g->addParameter("b", ll.back()); }
        if (i == 2) { V t = moved(shape(1, 0), {o.x, o.y + 2}); e.parts.push_back(t); auto p = pts(t); g->addParameter("d", Polygon3d(nid++, p)); }
        for (auto& p : e.parts) e.hull.insert(e.hull.end(), p.begin(), p.end());
        el.push_back(e); re.push_back(g);
      }
    }
    LaneletMapUPtr map;
    if (fill == 1) map = kind == 0 ? utils::createMap(ps) : kind == 1 ? utils::createMap(l) : kind == 2 ? utils::createMap(pg) : kind == 3 ? utils::createMap(ll) : kind == 4 ? utils::createMap(ar) : std::make_unique<LaneletMap>();
    else { map = std::make_unique<LaneletMap>(); for (auto& x : ps) map->add(x); for (auto& x : l) map->add(x); for (auto& x : pg) map->add(x); if (kind == 3) for (auto& x : ll) map->add(x); if (kind == 4) for (auto& x : ar) map->add(x); }
    if (kind == 5) { if (fill) map->add(std::make_shared<Gen>(99)); for (auto& x : re) map->add(x); }
    const LaneletMap& cm = *map;
    int R = PARAM("R", 2);
    IP q{sym_concrete(sym_int("qx", -R, R + 1)), sym_concrete(sym_int("qy", -R, R + 1))};
    int c = PARAM("all", 0) ? sym_concrete(sym_int("query", 0, 3)) : int((q.x + q.y + 16) % 4);
    IP b{q.x + (c & 1) * 2, q.y + (c >> 1)};
    I m2 = c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 4 : 9; double m = c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : 3;
#define ALL(L) { scan(map->L, el, q, q, b, 1 + c, (c + 1) % 4); scan(cm.L, el, q, q, b, 3 - c, c); exact(map->L, el, q, c, m2, m); exact(cm.L, el, q, 3 - c, m2, m); }
    if (kind == 0) { ALL(pointLayer); within(map->pointLayer, el, q, {m2, 1}, m); within(cm.pointLayer, el, q, {m2, 1}, m); within(map->pointLayer, el, q, {9, 16}, .75); within(cm.pointLayer, el, q, {25, 16}, 1.25); }
    if (kind == 1) { ALL(lineStringLayer); within(map->lineStringLayer, el, q, {m2, 1}, m); within(cm.lineStringLayer, el, q, {m2, 1}, m); within(map->lineStringLayer, el, q, {9, 16}, .75); within(cm.lineStringLayer, el, q, {25, 16}, 1.25); }
    if (kind == 2) { ALL(polygonLayer); within(map->polygonLayer, el, q, {m2, 1}, m); within(cm.polygonLayer, el, q, {m2, 1}, m); within(map->polygonLayer, el, q, {9, 16}, .75); within(cm.polygonLayer, el, q, {25, 16}, 1.25); }
    if (kind == 3) { ALL(laneletLayer); within(map->laneletLayer, el, q, {m2, 1}, m); within(cm.laneletLayer, el, q, {m2, 1}, m); within(map->laneletLayer, el, q, {9, 16}, .75); within(cm.laneletLayer, el, q, {25, 16}, 1.25); }
    if (kind == 4) { ALL(areaLayer); within(map->areaLayer, el, q, {m2, 1}, m); within(cm.areaLayer, el, q, {m2, 1}, m); within(map->areaLayer, el, q, {9, 16}, .75); within(cm.areaLayer, el, q, {25, 16}, 1.25); }
    if (kind == 5) { ALL(regulatoryElementLayer); REACH("rules"); }
  } else if (mode == 1) {  // boxes of two line strings with symbolic end points (the tree itself is executed symbolically)
    int R = PARAM("R", 2), N = 2;
    LaneletMap map; std::vector<Elem> el;
    struct D { I x0, y0, x1, y1; }; std::vector<D> d;
    for (int i = 0; i < N; i++) {
      I x0 = sym_int("x", -R, R), y0 = sym_int("y", -R, R), w = sym_int("w", 0, R), h = sym_int("h", 0, 1);
      double dx = double(x0), dy = double(y0), ex = double(x0 + w), ey = double(y0 + h);
      map.add(LineString3d(100 + i, Points3d{Point3d(200 + 2 * i, dx, i == 0 ? dy : ey, 0), Point3d(201 + 2 * i, ex, i == 0 ? ey : dy, 0)}));
      d.push_back({x0, y0, x0 + w, y0 + h});
    }
    I qx = sym_int("qx", -R, R), qy = sym_int("qy", -R, R);
    if (sym_bool("box")) {
      I w = sym_int("qw", 0, 2);
      auto r = map.lineStringLayer.search(BoundingBox2d(BasicPoint2d(double(qx), double(qy)), BasicPoint2d(double(qx + w), double(qy + 1))));
      for (int i = 0; i < N; i++) {
        bool in = d[i].x0 <= qx + w && d[i].x1 >= qx && d[i].y0 <= qy + 1 && d[i].y1 >= qy; int c = 0; for (auto& x : r) c += x.id() == 100 + i;
        CHECK(c == (in ? 1 : 0), "box search finds exactly the elements whose bounding box intersects the area");
      }
      if (r.size() == 2) REACH("both");
      if (r.empty()) REACH("none");
    } else {
      auto d2 = [&](int i) { I dx = qx < d[i].x0 ? d[i].x0 - qx : qx > d[i].x1 ? qx - d[i].x1 : 0, dy = qy < d[i].y0 ? d[i].y0 - qy : qy > d[i].y1 ? qy - d[i].y1 : 0; return dx * dx + dy * dy; };
      auto r = map.lineStringLayer.nearest(BasicPoint2d(double(qx), double(qy)), 1);
      CHECK(r.size() == 1, "one element");
      int i = int(r[0].id() - 100);
      CHECK(d2(i) <= d2(1 - i), "nearest returns the element with the smallest bounding box distance");
      REACH("nearest");
    }
  } else if (mode == 2) {  // a tree of several levels
    int N = PARAM("N", 20), few = PARAM("few", 0), fill = sym_concrete(sym_int("built at once", 0, 1));
    std::vector<Elem> el; Points3d ps;
    for (int i = 0; i < N; i++) {
      IP o{(i * 7) % 6, few ? (i * 5) % 31 : (i * 5) % 7};
      if (i == N - 1) o = few ? IP{sym_concrete(sym_int("x", 0, 1)) * 7 - 1, sym_concrete(sym_int("y", 0, 1)) * 30} : IP{sym_concrete(sym_int("x", -1, 6)), sym_concrete(sym_int("y", -1, 7))};
      el.push_back({100 + i, {o}, false, {}}); ps.emplace_back(100 + i, double(o.x), double(o.y), 0.);
    }
    LaneletMapUPtr map; if (fill) map = utils::createMap(ps); else { map = std::make_unique<LaneletMap>(); for (auto& p : ps) map->add(p); }
    IP q{sym_concrete(sym_int("qx", 0, few ? 1 : 2)) * 3 - 1, sym_concrete(sym_int("qy", 0, few ? 1 : 2)) * 4 - 1};
    scan(map->pointLayer, el, q, q, {q.x + 2, q.y + 3}, unsigned(N / 2), 7); scan(map->pointLayer, el, q, q, {q.x + 9, q.y + 9}, unsigned(N - 1), 0);
    exact(map->pointLayer, el, q, 5, 9, 3.);
    within(map->pointLayer, el, q, {9, 1}, 3.);
    REACH("tree");
  } else if (mode == 4) {  // elements whose bounding boxes say little about their distance
    static const V A[] = {{{0, 0}, {5, 0}, {5, 5}}, {{0, 0}, {0, 5}, {5, 5}}, {{-1, 5}, {5, -1}}, {{2, 2}}, {{-1, -1}, {4, 4}}, {{3, 1}, {5, 1}}};
    std::vector<Elem> el; LaneletMap map; int N = PARAM("N", 6), kind = sym_concrete(sym_int("polygons", 0, 1));
    IP o{sym_concrete(sym_int("x", -1, 1)) * 2, sym_concrete(sym_int("y", -1, 1))};
    for (int i = 0; i < N; i++) {
      V v = i == 0 ? moved(A[0], o) : A[i];
      if (kind && i == 0) v = rev(v);  // clockwise
      bool ring = kind && v.size() == 3;
      if (kind && !ring) continue;
      el.push_back({100 + i, v, ring, {}});
      if (kind) { auto p = pts(v); map.add(Polygon3d(100 + i, p)); } else { auto x = ls(v); x.setId(100 + i); map.add(x); }
    }
    IP q{sym_concrete(sym_int("qx", 0, 5)), sym_concrete(sym_int("qy", 0, 5))};
    const LaneletMap& cm = map;
    for (int n = 1; n <= int(el.size()); n++) { if (kind) exact(map.polygonLayer, el, q, n, 0, 0); else { exact(map.lineStringLayer, el, q, n, 0, 0); exact(cm.lineStringLayer, el, q, n, 0, 0); } }
    REACH("order");
  } else {  // distances in space
    int N = 2; LaneletMap map; std::vector<Elem> el; bool lines = sym_bool("line strings");
    for (int i = 0; i < N; i++) {
      V v{{sym_concrete(sym_int("x", -1, 1)), i, sym_concrete(sym_int("z", -2, 2))}}; if (lines) v.push_back({1, 1 - i, 1 + i});
      el.push_back({100 + i, v, false, {}});
      if (lines) { auto x = ls(v); x.setId(100 + i); map.add(x); } else map.add(Point3d(100 + i, double(v[0].x), double(v[0].y), double(v[0].z)));
    }
    IP q{sym_concrete(sym_int("qx", -2, 2)), 0, sym_concrete(sym_int("qz", -1, 1))};
    static const I M[] = {0, 1, 4, 9}; int k = sym_concrete(sym_int("limit", 0, 3));
    auto test = [&](auto& layer) {
      auto w = geometry::findWithin3d(layer, BasicPoint3d(double(q.x), double(q.y), double(q.z)), std::sqrt(double(M[k])));
      double last = 0; std::set<Id> ids;
      for (auto& x : w) { CHECK(x.first >= last, "the within search is sorted by distance"); last = x.first; CHECK(ids.insert(pid(x.second)).second, "each once"); CHECK(near(x.first, std::sqrt(val(trueD2(el[pid(x.second) - 100], q)))), "the within search in 3d reports true distances"); }
      for (auto& e : el) { Q d = trueD2(e, q); if (d.n < M[k] * d.d || d.n == 0) { CHECK(ids.count(e.id), "the within search in 3d finds every element in range"); REACH("within"); } else if (d.n > M[k] * d.d) { CHECK(!ids.count(e.id), "the within search in 3d finds elements in range only"); REACH("too far"); } }
    };
    const LaneletMap& cm = map;
    if (lines) { test(map.lineStringLayer); test(cm.lineStringLayer); } else { test(map.pointLayer); test(cm.pointLayer); }
  }
}
