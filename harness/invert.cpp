// C05: inverted views on line strings, compounds, lanelets
#include "h.h"
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <algorithm>
namespace {
std::vector<Id> rev(std::vector<Id> v) { std::reverse(v.begin(), v.end()); return v; }
// every access path of view `v` shows exactly the ids `want`
template <typename LS> void view(LS v, const std::vector<Id>& want, bool poly = false) {
  const LS& c = v;
  CHECK(c.size() == want.size(), "size");
  CHECK(c.empty() == want.empty(), "empty");
  CHECK(c.numSegments() == (poly ? (want.size() ? want.size() : 1) : (want.size() < 2 ? 0 : want.size() - 1)) || (poly && want.size() < 2), "number of segments");
  size_t i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++i) { CHECK(i < want.size(), "iteration ends"); CHECK(it->id() == want[i], "forward iteration"); }
  CHECK(i == want.size(), "forward iteration complete");
  i = want.size();
  for (auto it = c.end(); it != c.begin();) { --it; CHECK(i > 0, "backward iteration ends"); --i; CHECK(it->id() == want[i], "backward iteration"); CHECK(size_t(it - c.begin()) == i, "iterator distance"); CHECK((c.begin() + i) == it, "iterator addition"); }
  CHECK(i == 0, "backward iteration complete");
  for (i = 0; i < want.size(); i++) CHECK(c[i].id() == want[i], "indexing");
  if (!want.empty()) {
    CHECK(c.front().id() == want.front(), "front"); CHECK(c.back().id() == want.back(), "back");
    for (i = 0; i < want.size(); i++) { auto s = c.segment(i); CHECK(s.first.id() == want[i] && s.second.id() == want[(i + 1) % want.size()], "segment"); }
  }
  i = 0;
  for (auto it = c.basicBegin(); it != c.basicEnd(); ++it, ++i) CHECK((*it)[0] == double(want[i] % 100), "basic points");
  CHECK(i == want.size(), "basic points complete");
}
template <bool seg = true, typename H> void hybrid(const H& h, const std::vector<Id>& want) {
  CHECK(h.size() == want.size(), "hybrid size");
  size_t i = 0;
  for (auto it = h.begin(); it != h.end(); ++it, ++i) CHECK((*it)[0] == double(want[i] % 100), "hybrid iteration");
  CHECK(i == want.size(), "hybrid complete");
  for (i = 0; i < want.size(); i++) CHECK(h[i][0] == double(want[i] % 100), "hybrid index");
  if (!want.empty()) {
    CHECK(h.front()[0] == double(want.front() % 100) && h.back()[0] == double(want.back() % 100), "hybrid ends");
    if constexpr (seg) for (i = 0; i < want.size(); i++) { auto s = h.segment(i); CHECK(s.first[0] == double(want[i] % 100) && s.second[0] == double(want[(i + 1) % want.size()] % 100), "hybrid segment"); }
  }
}
Point3d P(int k) { return Point3d(100 + k, k, -k, 2 * k); }
template <typename C> LineStringImpl<C>& impl(LineStringImpl<C>& l) { return l; }
template <typename V> bool kindOf(const V& v) { return v.size() == 1 && sym_bool("copied"); }
template <typename LS, typename PT> void edit(LS v, std::vector<Id>& r, int op, const std::vector<Point3d>& pts, int& fresh) {
  int n = int(r.size());
  auto mk = [&]() { return pts[fresh++]; };
  switch (op) {
    case 0: { auto p = mk(); v.push_back(PT(p)); r.push_back(p.id()); break; }
    case 1: { int at = sym_int("at", 0, n); auto p = mk(); auto it = v.insert(v.begin() + at, PT(p)); r.insert(r.begin() + at, p.id()); CHECK(it - v.begin() == at && it->id() == p.id(), "insert returns the inserted position"); break; }
    case 2: { int at = sym_int("at", 0, n); int cnt = sym_int("count", 1, 2); std::vector<PT> in; std::vector<Id> ii; for (int i = 0; i < cnt; i++) { auto p = mk(); in.push_back(PT(p)); ii.push_back(p.id()); }
      v.insert(v.begin() + at, in.begin(), in.end()); r.insert(r.begin() + at, ii.begin(), ii.end()); break; }
    case 3: { if (!n) break; int at = sym_int("at", 0, n - 1); auto it = v.erase(v.begin() + at); r.erase(r.begin() + at); CHECK(it - v.begin() == at && (it == v.end() || it->id() == r[at]), "erase returns the next position"); break; }
    case 4: { if (!n) break; v.pop_back(); r.pop_back(); break; }
    case 5: { int m = sym_int("shrink", 0, n); v.resize(m); r.resize(m); break; }
    case 6: { v.clear(); r.clear(); break; }
    case 7: { int cnt = sym_int("count", 0, 2); std::vector<PT> in; r.clear(); for (int i = 0; i < cnt; i++) { auto p = mk(); in.push_back(PT(p)); r.push_back(p.id()); } if constexpr (std::is_same_v<PT, Point3d>) impl(v) = in; else if (kindOf(in)) impl(v) = in; else { std::vector<Point3d> q; for (auto& x : in) q.push_back(Point3d(x)); impl(v) = std::move(q); } break; }
    case 8: { if (!n) break; int at = sym_int("at", 0, n - 1); auto p = mk(); if (at == 0 && sym_bool("front")) v.front() = PT(p); else if (at == n - 1 && sym_bool("back")) v.back() = PT(p); else if (sym_bool("iterator")) *(v.begin() + at) = PT(p); else v[at] = PT(p); r[at] = p.id(); break; }
    case 9: { std::reverse(v.begin(), v.end()); std::reverse(r.begin(), r.end()); break; }
    case 10: { int m = n + 1; v.resize(m); CHECK(v.back().id() == InvalId, "growing adds fresh points at the end"); auto p = mk(); v.back() = PT(p); r.push_back(p.id()); break; }
  }
}
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0);
  if (mode == 0 || mode == 3) {
    int len = PARAM("len", 2);
    std::vector<Point3d> pts;
    for (int i = 0; i < 12; i++) pts.push_back(P(i));
    int fresh = 0;
    if (mode == 0) {
      LineString3d ls(1);
      std::vector<Id> ref;
      int n0 = sym_int("initial points", 0, 3);
      for (int i = 0; i < n0; i++) { ls.push_back(pts[fresh]); ref.push_back(pts[fresh++].id()); }
      LineString3d inv = ls.invert();
      for (int s = 0; s < len; s++) {
        int op = sym_int("op", 0, 10);
        bool i = sym_bool("through inverted");
        int kind = s == 0 ? sym_int("dimension", 0, 1) : 0;
        std::vector<Id> r = i ? rev(ref) : ref;
        if (i) REACH("inverted edit");
        if (kind == 0) edit<LineString3d, Point3d>(i ? inv : ls, r, op, pts, fresh);
        else edit<LineString2d, Point2d>(utils::to2D(i ? inv : ls), r, op, pts, fresh);
        ref = i ? rev(r) : r;
      }
      inv.setAttribute("k", "v"); 
      CHECK(ls.attribute("k").value() == "v" && ls.id() == inv.id(), "identity and attributes shared");
      inv.setId(5); CHECK(ls.id() == 5, "id shared");
      CHECK(inv.inverted() && !ls.inverted() && ls.invert().invert() == ls && inv.invert() == ls && !(ls == inv) && ls != inv, "inverting twice gives an equal object");
      view(ls, ref); view(inv, rev(ref)); view(ls.invert().invert(), ref);
      view(ConstLineString3d(ls), ref); view(ConstLineString3d(inv), rev(ref)); view(ConstLineString3d(ls).invert(), rev(ref));
      view(utils::to2D(ls), ref); view(utils::to2D(inv), rev(ref)); view(utils::to2D(ls).invert(), rev(ref)); view(ConstLineString2d(utils::to2D(inv)), rev(ref));
      hybrid(utils::toHybrid(ls), ref); hybrid(utils::toHybrid(inv), rev(ref)); hybrid(utils::toHybrid(utils::to2D(ls)).invert(), rev(ref)); hybrid(utils::toHybrid(ls).invert(), rev(ref));
      auto b = inv.basicLineString(); CHECK(b.size() == ref.size(), "basic line string"); for (size_t k = 0; k < b.size(); k++) CHECK(b[k][1] == -double(rev(ref)[k] % 100), "basic line string points");
      if (ref.size() == 3) REACH("three points");
      // self-reported segments of the inverted view are the mirrored segments
      for (size_t k = 0; k + 1 < ref.size(); k++) { auto s = ls.segment(k), q = inv.segment(ref.size() - 2 - k); CHECK(s.first == q.second && s.second == q.first, "segments mirrored"); }
    } else {
      Polygon3d pg(1);
      std::vector<Id> ref;
      int n0 = sym_int("initial points", 0, 3);
      for (int i = 0; i < n0; i++) { pg.push_back(pts[fresh]); ref.push_back(pts[fresh++].id()); }
      // the same data seen as a line string in either orientation
      for (int s = 0; s < len; s++) {
        int op = sym_int("op", 0, 10);
        if (sym_bool("2d")) edit<Polygon2d, Point2d>(utils::to2D(pg), ref, op, pts, fresh);
        else edit<Polygon3d, Point3d>(pg, ref, op, pts, fresh);
      }
      view(pg, ref, true); view(ConstPolygon3d(pg), ref, true); view(utils::to2D(pg), ref, true); hybrid<false>(utils::toHybrid(pg), ref);
      if (ref.size() == 3) REACH("three points");
    }
  } else if (mode == 1) {
    int nls = sym_int("line strings", 1, PARAM("nls", 3));
    std::vector<Point3d> pts{P(1), P(2), P(3)};
    LineStrings3d ls; std::vector<Id> flat; 
    for (int i = 0; i < nls; i++) {
      int n = sym_int("size", 0, 2);
      Points3d pp; std::vector<Id> w;
      for (int k = 0; k < n; k++) { int q = sym_int("point", 0, 2); pp.push_back(pts[q]); w.push_back(pts[q].id()); }
      LineString3d l(10 + i, pp);
      bool inv = n == 2 && sym_bool("inverted");
      ls.push_back(inv ? l.invert() : l);
      if (inv) w = rev(w);
      for (Id x : w) if (flat.empty() || flat.back() != x) flat.push_back(x);
    }
    CompoundLineString3d c(ls);
    bool any = false;
    if (flat.size() > 2) REACH("long");
    view(c, flat); view(c.invert(), rev(flat)); view(c.invert().invert(), flat);
    CompoundLineString2d c2 = utils::to2D(c);
    view(c2, flat); view(utils::to2D(c.invert()), rev(flat));
    CompoundPolygon3d cp(ls); 
    { size_t i = 0; for (auto& p : cp) CHECK(p.id() == flat[i++], "compound polygon"); CHECK(i == flat.size(), "compound polygon complete"); }
    { auto bp = cp.basicPolygon(); CHECK(bp.size() == flat.size(), "basic polygon"); }
    // nesting: the line strings of a compound (in either orientation) make up an equal compound
    view(CompoundLineString3d(c.invert().lineStrings()), rev(flat));
    view(CompoundLineString3d(CompoundLineStrings3d{c, c.invert()}), [&] { auto r = flat; auto q = rev(flat); for (Id x : q) if (r.empty() || r.back() != x) r.push_back(x); return r; }());
    Ids i1 = c.ids(), i2 = c.invert().ids(); std::reverse(i2.begin(), i2.end()); CHECK(i1 == i2 && i1.size() == size_t(nls), "ids mirrored");
  } else {
    // lanelets: bounds out of 2 line strings in either orientation
    std::vector<Point3d> pts{P(1), P(2), P(3), P(4)};
    LineString3d a(10, {pts[0], pts[1]}), b(11, {pts[2], pts[3]}), c(12, {pts[1], pts[3]});
    auto pick = [&](const char* n) { int k = sym_int(n, 0, 5); LineString3d l = k / 2 == 0 ? a : k / 2 == 1 ? b : c; return k % 2 ? l.invert() : l; };
    LineString3d left = pick("left"), right = pick("right");
    Lanelet ll(20, left, right);
    Lanelet inv = ll.invert();
    int op = sym_int("op", 0, 4);
    if (op == 1) { LineString3d n = pick("new"); inv.setLeftBound(n); right = n.invert(); REACH("set through inverted"); }
    if (op == 2) { LineString3d n = pick("new"); inv.setRightBound(n); left = n.invert(); }
    if (op == 3) { LineString3d n = pick("new"); ll.setLeftBound(n); left = n; }
    if (op == 4) { LineString3d n = pick("new"); ll.setRightBound(n); right = n; }
    CHECK(ll.leftBound() == left && ll.rightBound() == right, "bounds");
    CHECK(inv.leftBound() == right.invert() && inv.rightBound() == left.invert(), "inverting swaps and inverts the bounds");
    CHECK(ConstLanelet(inv).leftBound() == right.invert() && ConstLanelet(inv).rightBound() == left.invert() && ConstLanelet(inv).leftBound2d() == utils::to2D(right.invert()) && ConstLanelet(inv).rightBound2d() == utils::to2D(left.invert()), "const access");
    CHECK(inv.leftBound2d() == utils::to2D(right.invert()) && inv.rightBound3d() == left.invert(), "2d/3d access");
    CHECK(inv.inverted() && !ll.inverted() && inv.invert() == ll && ll.invert().invert() == ll && inv != ll && !(inv == ll), "inverting twice");
    CHECK(inv.constData() == ll.constData(), "data shared");
    inv.attributes()["k"] = "v"; CHECK(ll.attribute("k").value() == "v", "attributes shared");
    inv.setId(7); CHECK(ll.id() == 7, "id shared");
    CHECK(ll.polygon3d().size() == inv.polygon3d().size(), "outline shared");
    auto re = std::make_shared<GenericRegulatoryElement>(99);
    inv.addRegulatoryElement(re); CHECK(ll.regulatoryElements().size() == 1 && ll.regulatoryElements()[0] == re, "rules shared");
    CHECK(ll.removeRegulatoryElement(re) && inv.regulatoryElements().empty() && !inv.removeRegulatoryElement(re), "rule removal shared");
    WeakLanelet w(inv); CHECK(w.lock() == inv && w.lock().inverted(), "weak references keep the orientation");
    // sequences
    Lanelet l2(21, pick("left2"), pick("right2"));
    LaneletSequence s({ll, l2}); LaneletSequence si = s.invert();
    auto idsOf = [](auto&& x) { std::vector<Id> r; for (auto& p : x) r.push_back(p.id()); return r; };
    auto cat = [&](ConstLineString3d x, ConstLineString3d y) { std::vector<Id> r; for (auto& q : {x, y}) for (auto& p : q) if (r.empty() || r.back() != p.id()) r.push_back(p.id()); return r; };
    CHECK(idsOf(s.leftBound()) == cat(left, l2.leftBound()) && idsOf(s.rightBound()) == cat(right, l2.rightBound()), "sequence bounds");
    CHECK(idsOf(si.leftBound()) == rev(cat(right, l2.rightBound())) && idsOf(si.rightBound()) == rev(cat(left, l2.leftBound())), "inverted sequence bounds");
    CHECK(si.invert() == s && si.inverted() && s.ids() == Ids({7, 21}) && si.ids() == Ids({21, 7}) && si[0].id() == 21 && s[0].id() == 7, "inverted sequence order");
  }
}
