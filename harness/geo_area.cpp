// G02: containment, distance, intersection and overlap against exact integer geometry
#include "geo.h"
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/BoundingBox.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
namespace {
using V = std::vector<IP>;
BasicPoint2d b2(IP p) { return BasicPoint2d(double(p.x), double(p.y)); }
Id nid = 100;
LineString3d ls(const V& v, double z = 0) { Points3d p; Id id = nid++; for (size_t i = 0; i < v.size(); i++) p.emplace_back(id * 10 + i, double(v[i].x), double(v[i].y), z); return LineString3d(id, p); }
V rev(V v) { std::reverse(v.begin(), v.end()); return v; }
IP conc(IP p) { return {sym_concrete(p.x), sym_concrete(p.y), 0}; }
Q ringD2(const Ring& r, IP q) { Q m = footOn(r[0], r[1], q).d2; for (size_t i = 1; i < r.size(); i++) { Q d = footOn(r[i], r[(i + 1) % r.size()], q).d2; if (lt(d, m)) m = d; } return m; }
bool inClosed(const Ring& r, IP q) { return onRing(r, q) || strictlyIn(r, q); }
// closed polygons share a point
bool meet(const Ring& a, const Ring& b) {
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) if (segX(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) return true;
  return strictlyIn(a, b[0]) || strictlyIn(b, a[0]);
}
Q ringsD2(const Ring& a, const Ring& b) {
  if (meet(a, b)) return {0, 1};
  Q m{1000000, 1};
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) { Q d = segD2(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()]); if (lt(d, m)) m = d; }
  return m;
}
// interiors of two simple polygons overlap: split every edge at its intersections with the other boundary and classify the pieces exactly
bool halfOverlap(const Ring& a, const Ring& b, bool& allOn) {
  for (size_t i = 0; i < a.size(); i++) {
    IP s = a[i], e = a[(i + 1) % a.size()], d = e - s;
    std::vector<Q> t{{0, 1}, {1, 1}};
    for (size_t j = 0; j < b.size(); j++) {
      IP c = b[j], f = b[(j + 1) % b.size()], g = f - c;
      I den = cr(d, g);
      if (den != 0) { I n = cr(c - s, g); if (den < 0) { n = -n; den = -den; } if (n > 0 && n < den) t.push_back({n, den}); }
      else if (cr(d, c - s) == 0) for (IP x : {c, f}) { I n = dot(x - s, d), L = dot(d, d); if (n > 0 && n < L) t.push_back({n, L}); }
    }
    std::sort(t.begin(), t.end(), [](Q x, Q y) { return lt(x, y); });
    for (size_t k = 0; k + 1 < t.size(); k++) {
      if (eq(t[k], t[k + 1])) continue;
      I n = t[k].n * t[k + 1].d + t[k + 1].n * t[k].d, D = 2 * t[k].d * t[k + 1].d;
      Ring sc; for (IP p : b) sc.push_back({p.x * D, p.y * D});
      IP m{s.x * D + d.x * n, s.y * D + d.y * n};
      if (strictlyIn(sc, m)) return true;
      if (!onRing(sc, m)) allOn = false;
    }
  }
  return false;
}
bool interiorsMeet(const Ring& a, const Ring& b) { bool x = true, y = true; return halfOverlap(a, b, x) || halfOverlap(b, a, y) || (x && y); }
template <typename B> bool boxIs(const B& b, const Ring& r) {
  I x0 = r[0].x, x1 = x0, y0 = r[0].y, y1 = y0; for (IP p : r) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
  return b.min().x() == x0 && b.min().y() == y0 && b.max().x() == x1 && b.max().y() == y1;
}
Lanelet lane(const V& left, const V& right, double z = 0) { return Lanelet(nid++, ls(left, z), ls(right, z)); }
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0), R = PARAM("R", 2);
  if (mode == 0) {  // a point against a lanelet / area / polygon of 4 or 5 vertices in clockwise order
    int n = PARAM("n", 4), nl = PARAM("nl", 2);
    Ring r{{0, 0}};
    for (int i = 1; i < n; i++) r.push_back(conc(ipt("x", "y", R)));
    if (!(area2(r) < 0 && simple(r))) return;
    IP q = conc(ipt("qx", "qy", R));
    V left(r.begin(), r.begin() + nl), right(r.begin() + nl, r.end());
    Lanelet l = lane(left, rev(right), 1.);
    Area a(nid++, LineStrings3d{l.leftBound(), l.rightBound().invert()});
    Polygon3d pg(nid++, Points3d{}); for (auto& x : {l.leftBound(), l.rightBound().invert()}) for (size_t i = 0; i < x.size(); i++) pg.push_back(LineString3d(x)[i]);
    BasicPoint2d bq = b2(q);
    bool in = inClosed(r, q); double d = in ? 0. : std::sqrt(val(ringD2(r, q)));
    if (in) REACH("inside"); else REACH("outside");
    if (onRing(r, q)) REACH("border");
    CHECK(geometry::inside(l, bq) == in && geometry::inside(l.invert(), bq) == in, "point in lanelet, either orientation");
    CHECK(geometry::inside(a, bq) == in, "point in area");
    CHECK(near(geometry::distance2d(l, bq), d) && near(geometry::distance2d(ConstLanelet(l.invert()), bq), d), "distance to a lanelet");
    CHECK(near(geometry::distance2d(a, bq), d), "distance to an area");
    CHECK(near(geometry::distance(utils::toHybrid(ConstPolygon2d(utils::to2D(pg))), bq), d) && near(geometry::distance2d(pg, bq), d), "distance to a polygon");
    CHECK(boxIs(geometry::boundingBox2d(l), r) && boxIs(geometry::boundingBox2d(l.invert()), r) && boxIs(geometry::boundingBox2d(a), r) && boxIs(geometry::boundingBox2d(utils::to2D(pg)), r), "bounding boxes");
    auto b3 = geometry::boundingBox3d(l); CHECK(boxIs(b3, r) && b3.min().z() == 1 && b3.max().z() == 1 && boxIs(geometry::boundingBox3d(a), r) && boxIs(geometry::boundingBox3d(pg), r), "bounding boxes in 3d");
    CHECK(near(boost::geometry::area(utils::toHybrid(ConstPolygon2d(utils::to2D(pg)))), -0.5 * double(area2(r))) && near(boost::geometry::area(CompoundHybridPolygon2d(l.polygon2d())), -0.5 * double(area2(r))) && near(boost::geometry::area(a.basicPolygonWithHoles2d()), -0.5 * double(area2(r))), "enclosed area is positive and exact");
  } else if (mode == 1) {  // area with hole(s)
    Ring o{{0, 0}, {0, 6}, {6, 6}, {6, 0}};
    o[2] = {sym_concrete(sym_int("x", 5, 7)), sym_concrete(sym_int("y", 5, 7))};
    Ring h{{2, 1}, {3, 1}};
    h.push_back({sym_concrete(sym_int("hx", 1, 3)), sym_concrete(sym_int("hy", 2, 4))});
    bool two = sym_bool("two holes");
    Ring h2{{4, 2}, {5, 3}, {4, 3}};
    IP q{sym_concrete(sym_int("qx", -1, 7)), sym_concrete(sym_int("qy", -1, 7))};
    if (!(area2(h) > 0)) return;
    LineString3d h1 = ls(V{h[0], h[1]}), h1b = ls(V{h[2]});
    InnerBounds ib{LineStrings3d{h1, h1b}};
    if (two) ib.push_back(LineStrings3d{ls(h2)});
    LineString3d o1 = ls(V{o[0], o[1], o[2]}), o2 = ls(V{o[3]});
    Area a(nid++, LineStrings3d{o1, o2}, ib);
    bool hole = strictlyIn(h, q) || (two && strictlyIn(h2, q));
    bool in = inClosed(o, q) && !hole;
    if (hole) REACH("in a hole");
    double d = in ? 0. : std::sqrt(val(hole ? (strictlyIn(h, q) ? ringD2(h, q) : ringD2(h2, q)) : ringD2(o, q)));
    BasicPoint2d bq = b2(q);
    CHECK(geometry::inside(a, bq) == in, "point in area with holes");
    CHECK(near(geometry::distance2d(a, bq), d), "distance to an area with holes");
    CHECK(near(boost::geometry::area(a.basicPolygonWithHoles2d()), -0.5 * double(area2(o) + area2(h) + (two ? area2(h2) : 0))), "holes reduce the enclosed area");
    CHECK(boxIs(geometry::boundingBox2d(a), o), "bounding box");
    // another area around the query
    Ring s{q, {q.x, q.y + 1}, {q.x + 1, q.y + 1}, {q.x + 1, q.y}};
    Area b(nid++, LineStrings3d{ls(s)});
    bool inHole = false;
    for (const Ring* x : {&h, &h2}) if (x == &h || two) { bool all = true; for (IP p : s) all &= strictlyIn(*x, p); bool cross = false; for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < x->size(); j++) cross |= segX(s[i], s[(i + 1) % 4], (*x)[j], (*x)[(j + 1) % x->size()]); inHole |= all && !cross; }
    CHECK(geometry::intersects2d(a, b) == (meet(o, s) && !inHole) && geometry::intersects2d(b, a) == (meet(o, s) && !inHole), "areas with holes intersect");
  } else if (mode == 2) {  // two quadrilateral lanelets (no shared points)
    IP e{sym_concrete(sym_int("ax", 2, 4)), sym_concrete(sym_int("ay", 1, 3))};
    V al{{0, 2}, e}, ar{{0, 0}, {3, 0}};
    Ring ra{al[0], al[1], ar[1], ar[0]};
    IP s{sym_concrete(sym_int("bx", PARAM("b0", -1), 4)), sym_concrete(sym_int("by", -2, 4))};
    static const IP D[] = {{2, 0}, {0, 2}, {1, 1}, {-2, 1}, {0, -1}, {-1, -2}};
    IP d = D[sym_concrete(sym_int("direction", 0, 5))];
    int w = sym_concrete(sym_int("width", 1, 2));
    IP p{d.y * w, -d.x * w};  // to the right
    V bl{s, {s.x + d.x, s.y + d.y}}, br{{s.x + p.x, s.y + p.y}, {s.x + p.x + d.x, s.y + p.y + d.y}};
    Ring rb{bl[0], bl[1], br[1], br[0]};
    double h = sym_bool("other height") ? 2. : 0.;
    Lanelet A = lane(al, ar), B = lane(bl, br, h);
    int inv = sym_concrete(sym_int("inverted", 0, 3));
    ConstLanelet a = inv & 1 ? A.invert() : A, b = inv & 2 ? B.invert() : B;
    bool m = meet(ra, rb), ov = interiorsMeet(ra, rb);
    if (m && !ov) REACH("touching"); if (ov) REACH("overlapping"); if (!m) REACH("apart");
    CHECK(geometry::intersects2d(a, b) == m && geometry::intersects2d(b, a) == m, "lanelets intersect");
    CHECK(geometry::overlaps2d(a, b) == ov && geometry::overlaps2d(b, a) == ov, "lanelets overlap");
    CHECK(geometry::intersects2d(a, a.invert()) && geometry::overlaps2d(a, a.invert()) && geometry::intersects2d(a, a), "a lanelet overlaps itself in either orientation");
    CHECK(near(geometry::distance2d(a, b), std::sqrt(val(ringsD2(ra, rb)))) && near(geometry::distance2d(b, a), std::sqrt(val(ringsD2(ra, rb)))), "distance between lanelets");
    for (double tol : {1., 3.}) {
      CHECK(geometry::overlaps3d(a, b, tol) == (ov && h < tol) && geometry::intersects3d(a, b, tol) == (m && h < tol), "height separates level lanelets");
    }
    Area ab(nid++, LineStrings3d{B.leftBound(), B.rightBound().invert()});
    Area aa(nid++, LineStrings3d{A.leftBound(), A.rightBound().invert()});
    CHECK(geometry::overlaps2d(ab, a) == ov && geometry::overlaps2d(aa, ab) == ov && geometry::intersects2d(aa, ab) == m, "areas overlap / intersect like lanelets of the same shape");
    CHECK(geometry::overlaps3d(aa, ab, 1.) == (ov && h < 1.) && geometry::overlaps3d(ab, a, 3.) == ov, "height separates level areas");
  } else if (mode == 4) {  // crossings of two (given) centre lines
    V a{{0, 0}, {2, sym_concrete(sym_int("bend", -1, 1))}, {4, 0}};
    V b{conc(ipt("s", "s", R)), conc(ipt("e", "e", R))};
    for (IP& p : b) p.x += 2;
    if (b[0].x == b[1].x && b[0].y == b[1].y) return;
    bool third = sym_bool("continued"); if (third) { IP d = b[1] - b[0]; b.push_back({b[1].x + d.y * 3, b[1].y - d.x * 3}); }
    Lanelet A = lane({{0, 1}, {4, 1}}, {{0, -1}, {4, -1}}), B = lane({{0, 9}, {1, 9}}, {{0, 8}, {1, 8}});
    A.setCenterline(ls(a)); B.setCenterline(ls(b));
    struct X { double x, y, la, lb; };
    std::vector<X> want;
    double la = 0;
    for (size_t i = 0; i + 1 < a.size(); i++) {
      double lb = 0, na = std::sqrt(double(dot(a[i + 1] - a[i], a[i + 1] - a[i])));
      for (size_t j = 0; j + 1 < b.size(); j++) {
        IP d = a[i + 1] - a[i], e = b[j + 1] - b[j]; double nb = std::sqrt(double(dot(e, e)));
        I den = cr(d, e), t = cr(b[j] - a[i], e), u = cr(b[j] - a[i], d);
        if (den < 0) { den = -den; t = -t; u = -u; }
        if (segX(a[i], a[i + 1], b[j], b[j + 1])) {
          if (den == 0 || t == 0 || t == den || u == 0 || u == den) return;  // touching or running along: reported points depend on degenerate cases
          double ft = double(t) / double(den), fu = double(u) / double(den);
          want.push_back({a[i].x + ft * d.x, a[i].y + ft * d.y, la + ft * na, lb + fu * nb});
        }
        lb += nb;
      }
      la += na;
    }
    int inv = sym_concrete(sym_int("inverted", 0, 3));
    double LA = la, LB = 0; for (size_t j = 0; j + 1 < b.size(); j++) LB += std::sqrt(double(dot(b[j + 1] - b[j], b[j + 1] - b[j])));
    if (inv & 1) for (X& x : want) x.la = LA - x.la;
    if (inv & 2) for (X& x : want) x.lb = LB - x.lb;
    ConstLanelet ca = inv & 1 ? A.invert() : A, cb = inv & 2 ? B.invert() : B;
    if (want.size() > 1) REACH("two crossings"); if (want.size() == 1) REACH("crossing"); if (want.empty()) REACH("no crossing");
    std::vector<double> da, db;
    auto pts = geometry::intersectCenterlines2d(ca, cb, &da, &db);
    CHECK(pts.size() == want.size() && da.size() == pts.size() && db.size() == pts.size(), "one point and distance per crossing of the centre lines");
    for (size_t i = 0; i < pts.size(); i++) {
      bool f = false;
      for (const X& x : want) f |= near(x.x, pts[i].x(), 1e-9) && near(x.y, pts[i].y(), 1e-9) && near(x.la, da[i], 1e-9) && near(x.lb, db[i], 1e-9);
      CHECK(f, "crossing with its distance along each centre line");
    }
    std::vector<double> d2;
    CHECK(geometry::intersectCenterlines2d(ca, cb).size() == want.size() && geometry::intersectCenterlines2d(ca, cb, nullptr, &d2).size() == want.size() && d2.size() == want.size(), "distances are optional");
  } else {  // polygons that may share points
    V pool{{0, 0}, {0, 2}, {2, 2}, {2, 0}};
    pool[2] = {sym_concrete(sym_int("x", 1, 2)), sym_concrete(sym_int("y", 1, 2))};
    Points3d pp; for (size_t i = 0; i < pool.size(); i++) pp.emplace_back(i + 1, double(pool[i].x), double(pool[i].y), 0.);
    Ring ra = pool; Polygon3d A(50, pp);
    Ring rb; Points3d pb; std::vector<int> share;
    int nb = 3;
    for (int i = 0; i < nb; i++) {
      int k = sym_concrete(sym_int("shared", -1, 3));
      share.push_back(k);
      if (k >= 0) { rb.push_back(pool[k]); pb.push_back(pp[k]); }
      else { IP q = conc(ipt("bx", "by", R)); if (R == 1) { q.x *= 2; q.y *= 2; } q.x += 1; q.y += 1; rb.push_back(q); pb.emplace_back(60 + i, double(q.x), double(q.y), 0.); }
    }
    if (!(simple(rb) && simple(ra) && area2(rb) < 0 && area2(ra) < 0)) return;
    Polygon3d B(51, pb);
    bool border = false;  // a common edge in opposite direction
    for (int i = 0; i < nb; i++) for (int j = 0; j < 4; j++) border |= share[i] == (j + 1) % 4 && share[(i + 1) % nb] == j;
    if (border) REACH("common border");
    CHECK(geometry::touches2d(A, B) == border && geometry::touches2d(B, A) == border, "polygons touch when they share an edge in opposite direction");
    bool ov = interiorsMeet(ra, rb);
    if (!border) {
      CHECK(geometry::overlaps2d(utils::to2D(A), utils::to2D(B)) == ov && geometry::overlaps2d(utils::to2D(B), utils::to2D(A)) == ov, "polygons overlap");
      if (ov) REACH("overlap"); else REACH("no overlap");
    } else CHECK(!geometry::overlaps2d(utils::to2D(A), utils::to2D(B)), "polygons with a common border do not overlap");
    double d = std::sqrt(val(ringsD2(ra, rb)));
    CHECK(near(geometry::distance(utils::toHybrid(ConstPolygon2d(utils::to2D(A))), utils::toHybrid(ConstPolygon2d(utils::to2D(B)))), d), "distance between polygons");
    bool cross = false; Q m{10000, 1};
    for (int i = 0; i < 4; i++) for (int j = 0; j < nb; j++) { Q x = segD2(ra[i], ra[(i + 1) % 4], rb[j], rb[(j + 1) % nb]); if (lt(x, m)) m = x; }
    (void)cross;
    CHECK(near(geometry::distanceToBorder3d(A, B), std::sqrt(val(m))) && near(geometry::distanceToBorder3d(B, A), std::sqrt(val(m))), "distance of the borders");
  }
}
