// G01: line string measurements against exact rational arithmetic over the segments
#include "geo.h"
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/primitives/CompoundLineString.h>
namespace {
using V = std::vector<IP>;
BasicPoint2d b2(IP p) { return BasicPoint2d(double(p.x), double(p.y)); }
BasicPoint3d b3(IP p) { return BasicPoint3d(double(p.x), double(p.y), double(p.z)); }
LineString3d ls3(const V& v, Id id = 10) { Points3d p; for (size_t i = 0; i < v.size(); i++) p.emplace_back(id * 100 + i, double(v[i].x), double(v[i].y), double(v[i].z)); return LineString3d(id, p); }
Q best(const V& v, IP q) { Q m = footOn(v[0], v[0], q).d2; for (size_t i = 0; i + 1 < v.size(); i++) { Q d = footOn(v[i], v[i + 1], q).d2; if (lt(d, m)) m = d; } return m; }
BasicPoint3d at(const V& v, size_t i, Q t) { BasicPoint3d a = b3(v[i]), b = b3(v[i + 1]); return a + val(t) * (b - a); }
bool close(const BasicPoint3d& a, const BasicPoint3d& b) { return (a - b).norm() < 1e-8; }
// p is one of the nearest points of v
template <typename P> bool isNearest(const V& v, IP q, const P& p) {
  Q m = best(v, q);
  BasicPoint3d x(p.x(), p.y(), P::RowsAtCompileTime == 3 ? p[P::RowsAtCompileTime - 1] : 0.);
  if (v.size() == 1) return close(b3(v[0]), x);
  for (size_t i = 0; i + 1 < v.size(); i++) { Foot f = footOn(v[i], v[i + 1], q); if (eq(f.d2, m) && close(at(v, i, f.t), x)) return true; }
  return false;
}
double len(IP a, IP b) { return std::sqrt(double(dot(b - a, b - a))); }
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0), R = PARAM("R", 2), n = PARAM("n", 3);
  if (mode == 0) {  // point against 2d line string
    V v{{0, 0}};
    if (PARAM("fixed", 0) == 0) n = sym_int("points", 2, n);
    for (int i = 1; i < n; i++) v.push_back(ipt("x", "y", R));
    IP q = ipt("qx", "qy", R);
    for (IP& p : v) { p.x = sym_concrete(p.x); p.y = sym_concrete(p.y); }
    q.x = sym_concrete(q.x); q.y = sym_concrete(q.y);
    LineString3d l3 = ls3(v); LineString2d l2 = utils::to2D(l3); ConstLineString2d c2 = l2;
    BasicLineString2d bl; for (IP p : v) bl.push_back(b2(p));
    CompoundLineString2d comp(ConstLineStrings2d{c2});
    BasicPoint2d bq = b2(q);
    Q m = best(v, q); double d = std::sqrt(val(m));
    bool zero = false; for (int i = 0; i + 1 < n; i++) zero |= same(v[i], v[i + 1]);
    CHECK(isNearest(v, q, geometry::project(c2, bq)) && isNearest(v, q, geometry::project(bl, bq)) && isNearest(v, q, geometry::project(utils::toHybrid(c2), bq)) && isNearest(v, q, geometry::project(comp, bq)), "projection is a nearest point");
    CHECK(near(geometry::distance(c2, bq), d) && near(geometry::distance(bq, bl), d) && near(geometry::distance2d(comp, bq), d), "distance to a point");
    auto seg = geometry::closestSegment(c2, bq);
    bool segOk = false;
    for (int i = 0; i + 1 < n; i++) if (seg.first == l2[i] && seg.second == l2[i + 1] && eq(footOn(v[i], v[i + 1], q).d2, m)) segOk = true;
    CHECK(segOk, "closest segment");
    if (zero) return;
    // where is the nearest position: collect all distinct ones
    int cnt = 0; double s0 = 0, cum = 0, sFoot = 0; int fi = -1; Foot ff{};
    for (int i = 0; i + 1 < n; i++) {
      Foot f = footOn(v[i], v[i + 1], q);
      double s = cum + val(f.t) * len(v[i], v[i + 1]);
      if (eq(f.d2, m) && (cnt == 0 || std::fabs(s - sFoot) > 1e-7)) { cnt++; sFoot = s; fi = i; ff = f; }
      cum += len(v[i], v[i + 1]);
    }
    (void)s0;
    double sd = geometry::signedDistance(c2, bq);
    CHECK(near(std::fabs(sd), d) && near(std::fabs(geometry::signedDistance(bl, bq)), d), "magnitude of the signed distance");
    auto arc = geometry::toArcCoordinates(c2, bq), arcB = geometry::toArcCoordinates(bl, bq), arcC = geometry::toArcCoordinates(comp, bq);
    CHECK(arc.distance == sd && arcB.distance == sd && arcC.distance == sd, "arc distance is the signed distance");
    if (cnt == 1) {
      REACH("unique foot");
      CHECK(near(arc.length, sFoot) && near(arcB.length, sFoot) && near(arcC.length, sFoot), "arc length at the foot");
      int side = 0;
      bool inner = ff.t.n > 0 && ff.t.n < ff.t.d;
      bool perp = inner;
      if (inner) side = sgn(cr(v[fi], v[fi + 1], q));
      else {
        int vi = ff.t.n == 0 ? fi : fi + 1;
        if (vi == 0) { side = sgn(cr(v[0], v[1], q)); perp = dot(v[1] - v[0], q - v[0]) == 0; }
        else if (vi == n - 1) { side = sgn(cr(v[n - 2], v[n - 1], q)); perp = dot(v[n - 1] - v[n - 2], q - v[n - 1]) == 0; }
        else {
          I t = cr(v[vi - 1], v[vi], v[vi + 1]);
          side = t > 0 ? -1 : t < 0 ? 1 : dot(v[vi] - v[vi - 1], v[vi + 1] - v[vi]) > 0 ? sgn(cr(v[vi - 1], v[vi], q)) : 0;
          perp = t == 0;
          REACH("vertex");
        }
      }
      if (m.n > 0 && side) CHECK((sd > 0) == (side > 0), "side of the signed distance");
      if (m.n == 0 || (perp && side)) { REACH("back"); auto back = geometry::fromArcCoordinates(c2, arc); CHECK((back - bq).norm() < 1e-8, "arc coordinates lead back to the point"); back = geometry::fromArcCoordinates(bl, arc); CHECK((back - bq).norm() < 1e-8, "arc coordinates lead back to the point"); }
    }
  } else if (mode == 1) {  // 3d
    V v{{0, 0, 0}};
    n = sym_int("points", 2, n);
    auto p3 = [&](const char* nm) { I x = sym_int(nm, -R, R), y = sym_int(nm, -R, R), z = sym_int(nm, -R, R); return IP{sym_concrete(x), sym_concrete(y), sym_concrete(z)}; };
    for (int i = 1; i < n; i++) v.push_back(p3("point"));
    IP q = p3("query");
    LineString3d l = ls3(v); BasicLineString3d bl; for (IP p : v) bl.push_back(b3(p));
    BasicPoint3d bq = b3(q);
    double d = std::sqrt(val(best(v, q)));
    CHECK(isNearest(v, q, geometry::project(ConstLineString3d(l), bq)) && isNearest(v, q, geometry::project(bl, bq)), "projection is a nearest point");
    CHECK(near(geometry::distance(ConstLineString3d(l), bq), d) && near(geometry::distance3d(l, bq), d) && near(std::fabs(geometry::signedDistance(ConstLineString3d(l), bq)), d), "distance to a point");
    if (d > 0) REACH("off");
  } else if (mode == 2) {  // two line strings
    bool three = PARAM("three", 0);
    auto pt = [&](const char* nm) { I x = sym_int(nm, -R, R), y = sym_int(nm, -R, R), z = three ? sym_int(nm, -R, R) : 0; return IP{sym_concrete(x), sym_concrete(y), three ? sym_concrete(z) : 0}; };
    V a{{0, 0, 0}}, b;
    int na = PARAM("na", 2), nb = PARAM("nb", 2);
    for (int i = 1; i < na; i++) a.push_back(pt("a"));
    for (int i = 0; i < nb; i++) b.push_back(pt("b"));
    bool sw = sym_bool("swapped");
    ConstLineString3d la = ls3(sw ? b : a, 1), lb = ls3(sw ? a : b, 2);
    if (!three) {
      Q m{1000, 1}; bool x = false;
      for (size_t i = 0; i + 1 < a.size() || i == 0; i++) for (size_t j = 0; j + 1 < b.size() || j == 0; j++) { Q d = segD2(a[i], a[std::min(i + 1, a.size() - 1)], b[j], b[std::min(j + 1, b.size() - 1)]); if (lt(d, m)) m = d; }
      x = m.n == 0;
      if (x) REACH("touching"); else REACH("apart");
      auto pp = geometry::projectedPoint2d(utils::to2D(la), utils::to2D(lb));
      double d = std::sqrt(val(m));
      CHECK(near((pp.first - pp.second).norm(), d), "projected points are at the distance of the line strings");
      auto on = [&](const V& v, const BasicPoint2d& p) { double m = 1e9; for (size_t i = 0; i + 1 < v.size(); i++) { BasicPoint2d s = b2(v[i]), e = b2(v[i + 1]); double L = (e - s).squaredNorm(), t = L > 0 ? std::min(1., std::max(0., (p - s).dot(e - s) / L)) : 0; m = std::min(m, (s + t * (e - s) - p).norm()); } return m < 1e-8; };
      CHECK(on(sw ? b : a, pp.first) && on(sw ? a : b, pp.second), "projected points lie on their line string");
      if (la.size() > 1 && lb.size() > 1) {
        bool zero = false; for (auto* v : {&a, &b}) for (size_t i = 0; i + 1 < v->size(); i++) zero |= same((*v)[i], (*v)[i + 1]);
        if (!zero) {
          CHECK(near(geometry::distance(utils::toHybrid(utils::to2D(la)), utils::toHybrid(utils::to2D(lb))), d) && near(geometry::distance(utils::toHybrid(utils::to2D(lb)), utils::toHybrid(utils::to2D(la))), d), "distance between line strings");
          CHECK(geometry::intersects(utils::toHybrid(utils::to2D(la)), utils::toHybrid(utils::to2D(lb))) == x, "intersects");
        }
      }
    } else {
      auto pp = geometry::projectedPoint3d(la, lb);
      double d = (pp.first - pp.second).norm();
      const V& A = sw ? b : a; const V& B = sw ? a : b;
      // optimality of a pair on two segments (convex problem): no end point and no foot of either is closer
      CHECK(near(geometry::distance3d(la, lb), d) && near(geometry::distance3d(lb, la), d), "distance is symmetric and that of the projected points");
      auto seg = [](const BasicPoint3d& s, const BasicPoint3d& e, const BasicPoint3d& p) { double L = (e - s).squaredNorm(), t = L > 0 ? std::min(1., std::max(0., (p - s).dot(e - s) / L)) : 0; return BasicPoint3d(s + t * (e - s)); };
      auto proj = [&](const V& v, const BasicPoint3d& p) { BasicPoint3d r = b3(v[0]); for (size_t i = 0; i + 1 < v.size(); i++) { auto c = seg(b3(v[i]), b3(v[i + 1]), p); if ((c - p).norm() < (r - p).norm()) r = c; } return r; };
      CHECK((proj(A, pp.first) - pp.first).norm() < 1e-8 && (proj(B, pp.second) - pp.second).norm() < 1e-8, "projected points lie on their line string");
      if (A.size() == 2 && B.size() == 2) CHECK((proj(A, pp.second) - pp.second).norm() > d - 1e-8 && (proj(B, pp.first) - pp.first).norm() > d - 1e-8, "neither projected point can be improved");
      if (d > 0) REACH("apart"); else REACH("touching");
    }
  } else if (mode == 3) {  // lengths and interpolation
    V v{{0, 0}};
    n = sym_int("points", 1, n);
    for (int i = 1; i < n; i++) { IP p = ipt("x", "y", R); v.push_back({sym_concrete(p.x), sym_concrete(p.y), i}); }
    LineString3d l3 = ls3(v); LineString2d l2 = utils::to2D(l3);
    std::vector<double> cum{0.};
    for (int i = 0; i + 1 < n; i++) cum.push_back(cum.back() + std::sqrt(double((v[i + 1].x - v[i].x) * (v[i + 1].x - v[i].x) + (v[i + 1].y - v[i].y) * (v[i + 1].y - v[i].y))));
    double L = cum.back();
    CHECK(near(geometry::length(l2), L) && near(geometry::length(utils::toHybrid(l2)), L) && near(geometry::length(l2.invert()), L), "length");
    CHECK(near(geometry::rangedLength(l2.begin(), l2.end()), L), "ranged length");
    int a = sym_concrete(sym_int("range start", 0, n - 1)), b = n - 1;
    CHECK(near(geometry::rangedLength(l2.begin() + a, l2.begin() + b + 1), cum[b] - cum[a]), "ranged length of a part");
    if (L > 0) {
      auto r = geometry::lengthRatios(l2); auto ac = geometry::accumulatedLengthRatios(l2);
      CHECK(r.size() == size_t(n - 1) && ac.size() == r.size(), "one ratio per segment");
      for (int i = 0; i + 1 < n; i++) CHECK(near(r[i], (cum[i + 1] - cum[i]) / L) && near(ac[i], cum[i + 1] / L), "length ratios");
    } else if (n == 1) CHECK(geometry::lengthRatios(l2).empty() && geometry::accumulatedLengthRatios(l2).empty(), "no ratios for a single point");
    double L3 = 0; for (int i = 0; i + 1 < n; i++) { IP d = v[i + 1] - v[i]; if (i == 0) d.z = 1; L3 += std::sqrt(double(dot(d, d))); }
    CHECK(near(geometry::length(l3), L3), "3d length");
    auto bb = geometry::boundingBox2d(l2); I x0 = 0, x1 = 0, y0 = 0, y1 = 0; for (IP p : v) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    CHECK(bb.min() == BasicPoint2d(x0, y0) && bb.max() == BasicPoint2d(x1, y1), "bounding box");
    auto bb3 = geometry::boundingBox3d(l3); CHECK(bb3.min() == BasicPoint3d(x0, y0, 0) && bb3.max() == BasicPoint3d(x1, y1, n - 1), "bounding box 3d");
    // position at a distance, from the front or (negative) from the back
    int k = sym_concrete(sym_int("distance", -5, 5));
    double s = k * std::max(L, 0.5) / 4.;
    bool inv = s < 0; double ps = inv ? L + s : s;
    ps = std::min(L, std::max(0., ps));
    // expected point
    BasicPoint2d e = b2(inv ? v.front() : v.back());
    for (int i = 0; i + 1 < n; i++) if (cum[i + 1] > cum[i] && ps >= cum[i] && ps <= cum[i + 1]) { e = b2(v[i]) + (ps - cum[i]) / (cum[i + 1] - cum[i]) * (b2(v[i + 1]) - b2(v[i])); break; }
    BasicPoint2d g = geometry::interpolatedPointAtDistance(ConstLineString2d(l2), s), g2 = geometry::interpolatedPointAtDistance(utils::toHybrid(ConstLineString2d(l2)), s);
    CHECK((g - e).norm() < 1e-7 && (g2 - e).norm() < 1e-7, "interpolated point");
    ConstPoint2d np = geometry::nearestPointAtDistance(ConstLineString2d(l2), s);
    // no other vertex is nearer along the line string
    double bestD = 1e9, got = 1e9;
    for (int i = 0; i < n; i++) { bestD = std::min(bestD, std::fabs(cum[i] - ps)); if (l2[i].id() == np.id()) got = std::fabs(cum[i] - ps); }
    CHECK(got <= bestD + 1e-7, "nearest vertex at a distance");
    if (n >= 2 && L > 0 && s >= 0) {
      bool zero = false; for (int i = 0; i + 1 < n; i++) zero |= cum[i + 1] == cum[i];
      for (int i = 0; !zero && i + 1 < n; i++) if (ps > cum[i] + 1e-7 && ps < cum[i + 1] - 1e-7) {
        BasicPoint2d d = b2(v[i + 1]) - b2(v[i]); d /= d.norm();
        auto f = geometry::fromArcCoordinates(ConstLineString2d(l2), ArcCoordinates{ps, 0.5});
        CHECK((f - (e + 0.5 * BasicPoint2d(-d.y(), d.x()))).norm() < 1e-7, "point at arc coordinates");
        REACH("arc");
      }
    }
  } else if (mode == 4) {  // long line strings use a spatial index
    int N = 50; V v;
    int mv = sym_int("moved", 0, 2); int mi = mv == 0 ? 0 : mv == 1 ? 24 : 49;
    for (int i = 0; i < N; i++) v.push_back({i < 25 ? i : 49 - i, i < 25 ? 0 : 2, 0});
    IP b = v[mi], o = ipt("mx", "my", R); v[mi] = {b.x + sym_concrete(o.x), b.y + sym_concrete(o.y)};
    IP q = ipt("qx", "qy", R); q.x = b.x + sym_concrete(q.x) * 2; q.y = b.y + sym_concrete(q.y) * 2;
    LineString3d l = ls3(v); BasicPoint2d bq = b2(q);
    Q m = best(v, q);
    CHECK(isNearest(v, q, geometry::project(utils::to2D(ConstLineString3d(l)), bq)) && near(geometry::distance2d(l, bq), std::sqrt(val(m))), "projection on a long line string");
    CHECK(near(std::fabs(geometry::signedDistance(utils::to2D(ConstLineString3d(l)), bq)), std::sqrt(val(m))), "signed distance on a long line string");
    int fi = -1, cnt = 0; Foot ff{};
    for (int i = 0; i + 1 < N; i++) { Foot f = footOn(v[i], v[i + 1], q); if (eq(f.d2, m) && !(cnt && i == fi + 1 && eq(f.t, {0, 1}) && eq(ff.t, {1, 1}))) { cnt++; fi = i; ff = f; } }
    if (cnt == 1 && m.n > 0) {
      int side = 0, vi = ff.t.n == 0 ? fi : ff.t.n == ff.t.d ? fi + 1 : -1;
      if (vi <= 0 || vi == N - 1) side = sgn(cr(v[fi], v[fi + 1], q));
      else if (!same(v[vi - 1], v[vi]) && !same(v[vi], v[vi + 1])) { I t = cr(v[vi - 1], v[vi], v[vi + 1]); side = t > 0 ? -1 : t < 0 ? 1 : dot(v[vi] - v[vi - 1], v[vi + 1] - v[vi]) > 0 ? sgn(cr(v[vi - 1], v[vi], q)) : 0; REACH("vertex"); }
      if (side) CHECK((geometry::signedDistance(utils::to2D(ConstLineString3d(l)), bq) > 0) == (side > 0), "side of a long line string");
    }
    V s{q, {q.x + 1, q.y + 2}}; Q ml{1000000, 1};
    for (int i = 0; i + 1 < N; i++) { Q d = segD2(v[i], v[i + 1], s[0], s[1]); if (lt(d, ml)) ml = d; }
    LineString3d ls = ls3(s, 20);
    auto pp = geometry::projectedPoint2d(utils::to2D(ls), utils::to2D(l)); auto pq = geometry::projectedPoint2d(utils::to2D(l), utils::to2D(ls));
    CHECK(near((pp.first - pp.second).norm(), std::sqrt(val(ml))) && near((pq.first - pq.second).norm(), std::sqrt(val(ml))), "distance between a short and a long line string");
    REACH("long"); if (m.n == 0) REACH("on");
  }
}
