// C08: derived geometry (centre line, outlines) follows the current bounds
#include "h.h"
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <algorithm>
namespace {
using LS = LineString3d;
using Pts = std::vector<BasicPoint3d>;
template <typename L> Pts coords(const L& l) { Pts r; for (auto it = l.basicBegin(); it != l.basicEnd(); ++it) r.push_back(*it); return r; }
template <typename L> Pts coords2(const L& l) { Pts r; for (auto it = l.basicBegin(); it != l.basicEnd(); ++it) r.emplace_back((*it)[0], (*it)[1], 0.); return r; }
Pts flat(Pts p) { for (auto& x : p) x.z() = 0; return p; }
Pts rev(Pts v) { std::reverse(v.begin(), v.end()); return v; }
bool same(const Pts& a, const Pts& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
// the bounds, freshly copied
Lanelet fresh2(const LineString3d& a, const LineString3d& b) {
  std::map<Id, Point3d> m;
  auto cl = [&](const LineString3d& l) { Points3d p; for (auto& q : l) { if (!m.count(q.id())) m[q.id()] = Point3d(q.id(), q.x(), q.y(), q.z()); p.push_back(m[q.id()]); } return LineString3d(900, p); };
  return Lanelet(31, cl(a), cl(b));
}
template <typename L> std::vector<Id> pids(const L& l) { std::vector<Id> r; for (auto& p : l) r.push_back(p.id()); return r; }
std::vector<Id> cat(std::vector<std::vector<Id>> v) { std::vector<Id> r; for (auto& x : v) for (Id i : x) if (r.empty() || r.back() != i) r.push_back(i); return r; }
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0);
  if (mode == 0) {
    std::vector<Point3d> p;
    double xy[][3] = {{0, 2, 1}, {2, 2, 0}, {4, 2, 3}, {0, 0, 0}, {3, 0, 1}, {5, 1, 1}, {0, 4, 2}, {4, 4, 2}};
    for (int i = 0; i < 8; i++) p.emplace_back(100 + i, xy[i][0], xy[i][1], xy[i][2]);
    LineString3d ls[4] = {LS(10, {p[0], p[1], p[2]}), LS(11, {p[3], p[4]}), LS(12, {p[3], p[5]}), LS(13, {p[6], p[7]})};
    LineString3d custom[2] = {LS(20, {Point3d(120, 0, 1, 0), Point3d(121, 4, 1, 0)}), LS(21, {Point3d(122, 1, 1, 0), Point3d(123, 2, 1, 0), Point3d(124, 3, 1, 0)})};
    LineString3d L = ls[0], R = ls[1], C;
    bool hasC = false, inverted0 = sym_bool("initially inverted");
    if (inverted0) { L = ls[1].invert(); R = ls[0].invert(); }
    Lanelet ll(30, L, R), inv = ll.invert();
    ConstLanelet cl(ll);
    LaneletSequence seq({ConstLanelet(ll)});
    auto pickBound = [&] { int k = sym_int("bound", 0, PARAM("bounds", 1)); return k == 0 ? ls[2] : k == 1 ? ls[1].invert() : k == 2 ? ls[3] : k == 3 ? ls[0] : k == 4 ? ls[0].invert() : ls[3].invert(); };
    int len = PARAM("len", 3);
    for (int s = 0; s < len; s++) {
      int op = sym_int("op", 0, 7);
      Lanelet& v = op < 5 && sym_bool("inverted view") ? inv : ll;
      bool iv = v.inverted();
      switch (op) {
        case 0: { LineString3d n = pickBound(); v.setLeftBound(n); if (iv) R = n.invert(); else L = n; break; }
        case 1: { LineString3d n = pickBound(); v.setRightBound(n); if (iv) L = n.invert(); else R = n; break; }
        case 2: { LineString3d n = custom[sym_int("centerline", 0, 1)]; v.setCenterline(n); C = iv ? n.invert() : n; hasC = true; REACH("custom"); break; }
        case 3: { if (sym_bool("const")) ConstLanelet(v).centerline2d(); else v.centerline3d(); REACH("read"); break; }
        case 4: { v.resetCache(); break; }
        case 5: { int k = sym_int("moved point", 0, 1); p[k ? 3 : 0].x() = -1; ll.resetCache(); inv.resetCache(); REACH("moved"); break; }
        case 6: { seq.centerline(); seq.polygon3d(); break; }
        case 7: { Lanelet o(ll); o.setLeftBound(o.leftBound()); o.setRightBound(o.rightBound()); break; }
      }
    }
    Pts want = hasC ? coords(C) : coords(fresh2(L, R).centerline());
    CHECK(same(coords(ll.centerline()), want), "centre line of the original view");
    CHECK(same(coords(inv.centerline()), rev(want)), "centre line of the inverted view");
    CHECK(same(coords(cl.centerline3d()), want) && same(coords(cl.invert().centerline()), rev(want)), "centre line of const views");
    CHECK(same(coords2(ll.centerline2d()), flat(want)) && same(coords2(inv.centerline2d()), rev(flat(want))), "2d centre line");
    CHECK(ll.hasCustomCenterline() == hasC && inv.hasCustomCenterline() == hasC, "custom centre line flag");
    if (hasC) CHECK(ll.centerline().id() == C.id(), "custom centre line keeps its id");
    auto outline = cat({pids(L), pids(R.invert())});
    CHECK(pids(ll.polygon3d()) == outline && pids(ll.polygon2d()) == outline && pids(inv.polygon3d()) == outline && pids(cl.polygon2d()) == outline, "outline is the left bound followed by the inverted right bound");
    seq.resetCache();
    LaneletSequence fresh({ConstLanelet(ll)});
    CHECK(same(coords(seq.centerline()), want) && same(coords(fresh.centerline()), want) && same(coords(fresh.invert().centerline()), rev(want)), "sequence centre line");
    CHECK(pids(seq.polygon3d()) == outline && pids(fresh.polygon2d()) == outline, "sequence outline");
  } else if (mode == 1) {
    // areas
    std::vector<Point3d> p;
    for (int i = 0; i < 7; i++) p.emplace_back(100 + i, i, i * i, 0);
    LineString3d ls[4] = {LS(10, {p[0], p[1], p[2]}), LS(11, {p[2], p[3], p[0]}), LS(12, {p[3], p[4]}), LS(13, {p[5], p[6]})};
    auto pick = [&]() { LineString3d n = ls[sym_int("line", 0, 3)]; return sym_bool("inverted line") ? n.invert() : n; };
    LineStrings3d outer{ls[0], ls[1]}; InnerBounds inner{{ls[2]}};
    Area a(50, outer, inner);
    Area b(a); ConstArea c(a);
    for (int s = 0; s < PARAM("len", 2); s++) {
      int op = sym_int("op", 0, 2);
      Area& v = s == 0 ? a : b;
      if (op == 0) { outer.clear(); int n = sym_int("outer size", 0, 2); for (int i = 0; i < n; i++) outer.push_back(pick()); v.setOuterBound(outer); REACH("outer"); }
      if (op == 1) { inner.clear(); int n = sym_int("holes", 0, 2); for (int i = 0; i < n; i++) { inner.push_back({pick()}); if (i == 0) inner.back().push_back(ls[3]); } v.setInnerBounds(inner); REACH("inner"); }
      if (op == 2) { v.outerBoundPolygon(); v.innerBoundPolygons(); }
    }
    std::vector<std::vector<Id>> o; for (auto& l : outer) o.push_back(pids(l));
    CHECK(c.outerBound().size() == outer.size() && b.outerBound() == outer && a.innerBounds() == inner, "bounds as set");
    CHECK(pids(a.outerBoundPolygon()) == cat(o) && pids(c.outerBoundPolygon()) == cat(o), "outer outline");
    auto holes = c.innerBoundPolygons();
    CHECK(holes.size() == inner.size(), "number of holes");
    auto basic = c.basicPolygonWithHoles2d(); auto basic3 = b.basicPolygonWithHoles3d();
    CHECK(basic.outer.size() == cat(o).size() && basic3.outer.size() == cat(o).size() && basic.inner.size() == inner.size() && basic3.inner.size() == inner.size(), "basic polygons");
    for (size_t i = 0; i < inner.size(); i++) { std::vector<std::vector<Id>> h; for (auto& l : inner[i]) h.push_back(pids(l)); auto w = cat(h); CHECK(pids(holes[i]) == w && basic.inner[i].size() == w.size() && basic3.inner[i].size() == w.size(), "hole outline"); for (size_t k = 0; k < w.size(); k++) CHECK(basic.inner[i][k].x() == double(w[k] - 100), "hole points"); }
    for (size_t k = 0; k < basic.outer.size(); k++) CHECK(basic.outer[k].x() == double(cat(o)[k] - 100) && basic3.outer[k].y() == basic.outer[k].x() * basic.outer[k].x(), "outer points");
  } else {
    int R = PARAM("R", 2), nl = sym_int("left points", PARAM("min", 2), PARAM("nl", 2)), nr = sym_int("right points", PARAM("min", 2), PARAM("nr", 2));
    auto mk = [&](int n, Id id) { Points3d p; for (int i = 0; i < n; i++) { bool fix = i == 0 && id == 10 && PARAM("anchor", 1); p.emplace_back(id + i, fix ? 0. : sym_grid("x", -R, R, 0), fix ? 0. : sym_grid("y", -R, R, 0), 0.5 * i); } return LineString3d(id, p); };
    LineString3d L = mk(nl, 10), Rt = mk(nr, 20);
    if (sym_bool("closed at the start")) { Rt.front() = L.front(); REACH("closed"); }
    if (sym_bool("closed at the end")) Rt.back() = L.back();
    Lanelet ll(1, L, Rt);
    auto c = coords(ll.centerline());
    auto mid = [](const Point3d& a, const Point3d& b) { return BasicPoint3d((a.basicPoint() + b.basicPoint()) * 0.5); };
    auto eq2 = [](const BasicPoint3d& a, const BasicPoint3d& b) { return a.x() == b.x() & a.y() == b.y(); };
    CHECK(c.size() >= 1 && c.size() <= size_t(nl + nr), "centre line size");
    CHECK(eq2(c.front(), mid(L.front(), Rt.front())), "starts at the mid point of the first end segment");
    CHECK(eq2(c.back(), mid(L.back(), Rt.back())), "ends at the mid point of the last end segment");
    // every vertex connects points of both bounds, in driving direction
    std::vector<std::vector<bool>> at(nl, std::vector<bool>(nr, false));
    for (int i = 0; i < nl; i++) for (int j = 0; j < nr; j++) at[i][j] = eq2(c[0], mid(L[i], Rt[j]));
    for (size_t k = 1; k < c.size(); k++) {
      auto nx = at; bool any = false;
      for (int i = 0; i < nl; i++) for (int j = 0; j < nr; j++) {
        bool reach = false;
        for (int a = 0; a <= i; a++) for (int b = 0; b <= j; b++) reach |= at[a][b];
        nx[i][j] = reach && eq2(c[k], mid(L[i], Rt[j])); any |= nx[i][j];
      }
      CHECK(any, "centre line advances along both bounds");
      at = nx;
    }
    if (c.size() > 2) REACH("inner vertex");
  }
}
