// G04: triangulation and convex partition of simple polygons against exact integer geometry
#include "geo.h"
#include <lanelet2_core/geometry/Polygon.h>
namespace {
using geometry::IndexedTriangles;
int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
bool convexCw(const Ring& r) {   // clockwise turns only (straight vertices allowed), once around
  for (size_t i = 0; i < r.size(); i++) if (cr(r[i], r[(i + 1) % r.size()], r[(i + 2) % r.size()]) > 0) return false;
  return area2(r) < 0 && simple(r);
}
// r >= 0 while d is outside, on, or inside the circle through a, b, c (counter clockwise)
I inCircle(IP a, IP b, IP c, IP d) {
  I ax = a.x - d.x, ay = a.y - d.y, bx = b.x - d.x, by = b.y - d.y, cx = c.x - d.x, cy = c.y - d.y;
  return (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay);
}
// the edge ab belongs to every Delaunay triangulation of the vertices: some circle through a and b has all others strictly outside
bool delaunayEdge(const Ring& v, IP a, IP b) {
  for (IP c : v) if (!same(c, a) && !same(c, b) && onSeg(a, b, c)) return false;
  bool left = false, right = false; IP l{}, r{};
  for (IP c : v) {
    I s = cr(a, b, c);
    if (s > 0 && (!left || inCircle(a, b, l, c) > 0)) { l = c; left = true; }    // smallest circle centre on the left
    if (s < 0 && (!right || inCircle(b, a, r, c) > 0)) { r = c; right = true; }
  }
  if (!left || !right) return true;
  return inCircle(a, b, l, r) < 0;
}
bool disjoint(const Ring& a, const Ring& b) {   // interiors of two clockwise convex polygons: some edge separates them
  for (int k = 0; k < 2; k++) { const Ring &x = k ? b : a, &y = k ? a : b; for (size_t i = 0; i < x.size(); i++) { bool all = true; for (IP p : y) all &= cr(x[i], x[(i + 1) % x.size()], p) >= 0; if (all) return true; } }
  return false;
}
// empty: the pieces are convex, lie in the polygon, do not overlap and cover it; otherwise what is wrong
std::string wrong(const Ring& poly, const std::vector<Ring>& pieces) {
  I sum = 0;
  for (auto& p : pieces) {
    if (!convexCw(p)) return "every piece is convex and oriented like the polygon";
    sum += area2(p);
    Ring sc; for (IP q : poly) sc.push_back({q.x * 3, q.y * 3});
    for (size_t i = 1; i + 1 < p.size(); i++) {
      IP c{p[0].x + p[i].x + p[i + 1].x, p[0].y + p[i].y + p[i + 1].y};
      if (cr(p[0], p[i], p[i + 1]) != 0 && !strictlyIn(sc, c) && !onRing(sc, c)) return "every piece lies in the polygon";
    }
  }
  for (size_t i = 0; i < pieces.size(); i++) for (size_t j = 0; j < i; j++) if (!disjoint(pieces[i], pieces[j])) return "pieces do not overlap";
  return sum == area2(poly) ? "" : "the areas add up";
}
Ring hull(const Ring& r) {   // clockwise, without straight vertices
  Ring h; size_t s = 0;
  for (size_t i = 1; i < r.size(); i++) if (r[i].x < r[s].x || (r[i].x == r[s].x && r[i].y < r[s].y)) s = i;
  size_t c = s;
  do {
    h.push_back(r[c]); size_t n = (c + 1) % r.size();
    for (size_t i = 0; i < r.size(); i++) { I v = cr(r[c], r[n], r[i]); if (v > 0 || (v == 0 && dot(r[i] - r[c], r[i] - r[c]) > dot(r[n] - r[c], r[n] - r[c]))) n = i; }
    c = n;
  } while (c != s);
  return h;
}
}  // namespace
extern "C" void sym_harness() {
  int n = PARAM("n", 5), R = PARAM("R", 1), S = PARAM("scale", 1);
  Ring r;
  if (PARAM("sorted", 0)) {   // an upper and a lower chain: many reflex vertices, cheap to enumerate
    int up = n / 2, lo = n - up - 2, H = PARAM("H", 3);
    r.push_back({0, 0});
    for (int i = 0; i < up; i++) r.push_back({i + 1, pick("upper", 1, H)});
    r.push_back({std::max(up, lo) + 1, 0});
    for (int i = lo; i-- > 0;) r.push_back({i + 1, -pick("lower", 0, H - 1)});
  } else {
    r.push_back({0, 0});
    for (int i = 1; i < n; i++) r.push_back({pick("x", -R, R), pick("y", -R, R)});
  }
  if (!simple(r)) { return; }
  if (area2(r) > 0) return;   // polygons are clockwise
  for (IP& p : r) { p.x *= S; p.y *= S; }
  double dx = PARAM("offset", 0);
  BasicPolygon2d poly; Points3d pts;
  for (size_t i = 0; i < r.size(); i++) { poly.push_back(BasicPoint2d(double(r[i].x) + dx, double(r[i].y) - dx)); pts.emplace_back(10 + i, double(r[i].x) + dx, double(r[i].y) - dx, double(i)); }
  Polygon3d p3(5, pts);
  bool convex = convexCw(r), del = true;
  for (size_t i = 0; i < r.size(); i++) del &= delaunayEdge(r, r[i], r[(i + 1) % r.size()]);
  if (!convex) REACH("concave");
  // --- triangles
  for (int k = 0; k < 2; k++) {
    IndexedTriangles t = k ? geometry::triangulate(lanelet::utils::to2D(p3)) : geometry::triangulate(poly);
    std::vector<Ring> pieces;
    for (auto& x : t) { Ring q; for (size_t i : x) { CHECK(i < r.size(), "indices of vertices"); q.push_back(r[i]); } pieces.push_back(q); }
    std::string w = wrong(r, pieces);
    if (!convex && !w.empty()) {   // known finding: the triangles cover the convex hull of the vertices
      std::string h = wrong(hull(r), pieces);
      CHECK(h.empty(), ("triangles of a concave polygon: " + h).c_str());
      sym_note("triangulate-concave");
    } else {
      CHECK(w.empty(), ("triangles: " + w).c_str());
      CHECK(t.size() == r.size() - 2, "number of triangles");
      REACH("triangulated");
    }
  }
  if (convex) REACH("convex");
  // --- convex pieces
  for (int k = 0; k < 2; k++) {
    BasicPolygons2d parts;
    std::string w;
    try { parts = k ? geometry::convexPartition(lanelet::utils::to2D(ConstPolygon3d(p3))) : geometry::convexPartition(poly); } catch (const std::exception& e) { w = e.what(); }
    std::vector<Ring> pieces;
    for (auto& x : parts) {
      Ring q;
      for (auto& c : x) { bool found = false; for (size_t i = 0; i < r.size(); i++) if (poly[i] == c) { q.push_back(r[i]); found = true; } CHECK(found, "pieces consist of vertices of the polygon"); }
      pieces.push_back(q);
    }
    if (w.empty()) w = wrong(r, pieces);
    if (!del && !w.empty()) { sym_note("partition-not-delaunay"); continue; }
    CHECK(w.empty(), ("parts: " + w).c_str());
    CHECK(!convex || parts.size() == 1, "a convex polygon stays whole");
    size_t reflex = 0; for (size_t i = 0; i < r.size(); i++) reflex += cr(r[i], r[(i + 1) % r.size()], r[(i + 2) % r.size()]) > 0;
    CHECK(parts.size() <= 2 * reflex + 3, "not more pieces than documented");
    if (parts.size() > 2) REACH("several parts");
    if (parts.size() == 2) REACH("two parts");
  }
}
