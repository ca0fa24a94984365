// G06: offset lines, lateral shifts, curvature and 3d crossings of line strings
#include "geo.h"
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/primitives/CompoundLineString.h>
namespace {
using P2 = BasicPoint2d;
using L2 = std::vector<P2>;
double cross(const P2& a, const P2& b) { return a.x() * b.y() - a.y() * b.x(); }
double segDist(const P2& a, const P2& b, const P2& q) {
  P2 d = b - a; double L = d.squaredNorm();
  double t = L > 0 ? (q - a).dot(d) / L : 0; t = std::min(1., std::max(0., t));
  return (a + t * d - q).norm();
}
double lineDist(const L2& l, const P2& q) { double m = 1e300; for (size_t i = 0; i + 1 < l.size(); i++) m = std::min(m, segDist(l[i], l[i + 1], q)); return m; }
P2 left(const P2& v) { return P2(-v.y(), v.x()); }
// the definition: every segment moved sideways, joined at the intersections; corners sharper than 90 degrees are cut on the outside
bool miter(const L2& l, double d, L2& out) {
  size_t n = l.size();
  std::vector<P2> u;
  for (size_t i = 0; i + 1 < n; i++) u.push_back((l[i + 1] - l[i]).normalized());
  out = {l[0] + left(u[0]) * d};
  for (size_t i = 1; i + 1 < n; i++) {
    double c = u[i - 1].dot(u[i]), s = cross(u[i - 1], u[i]);
    if (c < -1 + 1e-9) return false;  // turning back
    bool outer = d > 0 ? s < 0 : s > 0;
    if (outer && c < -1e-12) {  // two corners, each half way round
      double half = std::acos(std::max(-1., c)) / 4, o = std::fabs(d) * std::tan(half);
      out.push_back(l[i] + left(u[i - 1]) * d + u[i - 1] * o);
      out.push_back(l[i] + left(u[i]) * d - u[i] * o);
    } else {
      P2 b = left(u[i - 1]) + left(u[i]);
      out.push_back(l[i] + b * (d / (1 + c)));
    }
  }
  out.push_back(l[n - 1] + left(u[n - 2]) * d);
  return true;
}
bool cutOff(const L2& l, const L2& m) {  // a segment of the definition runs backwards: it is consumed by its neighbours
  for (size_t i = 0; i + 1 < m.size(); i++) {
    bool fwd = false;
    for (size_t k = 0; k + 1 < l.size(); k++) { P2 a = (l[k + 1] - l[k]).normalized(), b = m[i + 1] - m[i]; if (std::fabs(cross(a, b)) < 1e-9 && a.dot(b) > 1e-6) fwd = true; }
    if (!fwd) { P2 b = m[i + 1] - m[i]; bool corner = false; for (size_t k = 1; k + 1 < l.size(); k++) { P2 a = (l[k + 1] - l[k]).normalized() + (l[k] - l[k - 1]).normalized(); if (std::fabs(cross(a, b)) < 1e-9 * (1 + b.norm()) && a.dot(b) > 1e-6) corner = true; } if (!corner) return true; }
  }
  return false;
}
bool crosses(const P2& a, const P2& b, const P2& c, const P2& d) {
  double o1 = cross(b - a, c - a), o2 = cross(b - a, d - a), o3 = cross(d - c, a - c), o4 = cross(d - c, b - c);
  return o1 * o2 < -1e-12 && o3 * o4 < -1e-12;
}
bool selfCrossing(const L2& m) { for (size_t i = 0; i + 1 < m.size(); i++) for (size_t j = i + 2; j + 1 < m.size(); j++) if (crosses(m[i], m[i + 1], m[j], m[j + 1])) return true; return false; }
L2 tidy(const L2& m) {  // without repeated and collinear points
  L2 r;
  for (auto& p : m) {
    if (!r.empty() && (r.back() - p).norm() < 1e-7) continue;
    while (r.size() >= 2 && std::fabs(cross(r.back() - r[r.size() - 2], p - r.back())) < 1e-7 && (r.back() - r[r.size() - 2]).dot(p - r.back()) > 0) r.pop_back();
    r.push_back(p);
  }
  return r;
}
bool equal(const L2& a, const L2& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if ((a[i] - b[i]).norm() > 1e-6) return false; return true; }
L2 offs(const L2& l, double d, bool& thrown, int type) {
  thrown = false;
  Points3d p; for (size_t i = 0; i < l.size(); i++) p.emplace_back(i + 1, l[i].x(), l[i].y(), 3. * i);
  LineString3d ls(99, p);
  BasicLineString2d b(l.begin(), l.end()), r;
  try {
    if (type == 0) r = geometry::offset(ConstLineString2d(utils::to2D(ls)), d);
    else if (type == 1) r = geometry::offset(b, d);
    else r = geometry::offset(utils::toHybrid(ConstLineString2d(utils::to2D(ls))), d);
  } catch (GeometryError&) { thrown = true; }
  return L2(r.begin(), r.end());
}
}  // namespace
extern "C" void sym_harness() {
  const int mode = PARAM("mode", 0); int n = PARAM("n", 3), R = PARAM("R", 2);
  if (mode == 0) {
    int mono = PARAM("mono", 1);
    n = sym_concrete(sym_int("points", 2, n));
    L2 l{P2(0, 0)};
    for (int i = 1; i < n; i++) {
      double x = mono ? l.back().x() + sym_concrete(sym_int("step", 1, PARAM("S", 2))) : sym_concrete(sym_int("x", -R, R));
      l.emplace_back(x, double(sym_concrete(sym_int("y", -R, R))));
    }
    for (int i = 0; i + 1 < n; i++) ASSUME((l[i] - l[i + 1]).norm() > 0);
    for (int i = 1; i + 1 < n; i++) ASSUME(std::fabs(cross(l[i] - l[i - 1], l[i + 1] - l[i])) > 0 || (l[i] - l[i - 1]).dot(l[i + 1] - l[i]) > 0);  // no turning back on itself
    auto ip = [&](int i) { return IP{I(l[i].x()), I(l[i].y()), 0}; };
    for (int i = 0; i + 1 < n; i++) for (int j = i + 2; j + 1 < n; j++) ASSUME(!segX(ip(i), ip(i + 1), ip(j), ip(j + 1)));  // and no crossing of itself
    double d = sym_concrete(sym_int("distance", 0, 4)) / 4.;
    if (sym_concrete(sym_bool("to the right"))) d = -d;
    int type = (int(l[1].x() + l.back().y() + 10 * d)) & 3; if (type == 3) type = 0;
    int rot = sym_concrete(sym_int("rotation", 0, PARAM("rot", 3)));
    for (auto& p : l) for (int k = 0; k < rot; k++) p = left(p);
    bool thrown; L2 r = offs(l, d, thrown, type), m;
    bool ok = miter(l, d, m);
    if (ok && !cutOff(l, m) && !selfCrossing(m)) {
      double lo = 1e300; for (auto& p : m) lo = std::min(lo, lineDist(l, p));
      for (size_t i = 0; i + 1 < m.size(); i++) lo = std::min(lo, lineDist(l, (m[i] + m[i + 1]) / 2));
      if (lo > std::fabs(d) - 1e-9) {
        REACH("regular");
        CHECK(!thrown, "no error where every segment can be moved");
        CHECK(equal(tidy(r), tidy(m)), "segments are moved sideways and joined");
      }
    }
    if (thrown) { REACH("rejected"); return; }
    CHECK(r.size() >= 2, "offset has a length");
    for (auto& p : r) { double x = lineDist(l, p); CHECK(x > std::fabs(d) - 1e-6, "never closer than the offset"); CHECK(x < std::sqrt(2.) * std::fabs(d) + 1e-6, "never further than sqrt(2) times the offset"); }
    for (size_t i = 0; i + 1 < r.size(); i++) for (int k = 1; k < 8; k++) CHECK(lineDist(l, r[i] + (r[i + 1] - r[i]) * (k / 8.)) > std::fabs(d) - 1e-6, "no part is closer than the offset");
    CHECK(!selfCrossing(r), "no self-intersection");
    L2 mir; for (auto& p : l) mir.emplace_back(p.x(), -p.y());
    bool t2; L2 q = offs(mir, -d, t2, type); for (auto& p : q) p.y() = -p.y();
    CHECK(!t2 && equal(tidy(q), tidy(r)), "left and right are mirror images");
  }
  if (mode == 1) {  // curvature of three points
    IP p[3];
    for (int i = 0; i < 3; i++) p[i] = i == 0 ? IP{0, 0} : ipt("x", "y", R);
    for (IP& q : p) { q.x = sym_concrete(q.x); q.y = sym_concrete(q.y); }
    P2 a(p[0].x, p[0].y), b(p[1].x, p[1].y), c(p[2].x, p[2].y);
    Point2d pb(5, b.x(), b.y()), pa(4, a.x(), a.y()), pc(6, c.x(), c.y());
    double k = geometry::signedCurvature2d(a, b, c), k2 = geometry::signedCurvature2d(pa, pb, pc);
    CHECK(k == k2 && geometry::curvature2d(a, b, c) == std::fabs(k), "curvature is the magnitude of the signed curvature");
    if (same(p[0], p[1]) || same(p[1], p[2]) || same(p[0], p[2])) { CHECK(std::isinf(k), "repeated points have infinite curvature"); REACH("repeated"); return; }
    I t = cr(p[0], p[1], p[2]);
    if (t == 0) { CHECK(k == 0, "collinear points have no curvature"); return; }
    REACH("turn");
    CHECK((k > 0) == (t > 0), "curvature is positive for left turns");
    // centre of the circle through the origin, b and c: 2 b.m = b.b, 2 c.m = c.c
    double bb = dot(p[1], p[1]), cc = dot(p[2], p[2]), det = 2. * cr(p[1], p[2]);
    double mx = (bb * p[2].y - cc * p[1].y) / det, my = (cc * p[1].x - bb * p[2].x) / det;
    CHECK(std::fabs(std::fabs(k) * std::sqrt(mx * mx + my * my) - 1) < 1e-9, "curvature is one over the radius of the circle");
    CHECK(std::fabs(geometry::signedCurvature2d(c, b, a) + k) < 1e-12, "curvature changes its sign with the direction");
  }
  if (mode == 2) {  // crossings in space
    auto pt = [&](Id id, IP p) { return Point3d(id, double(p.x), double(p.y), double(p.z)); };
    auto ip3 = [&](int zmax, bool origin) { IP p = origin ? IP{0, 0} : ipt("x", "y", R); p.z = sym_int("z", 0, zmax) * PARAM("H", 20); p.x = sym_concrete(p.x); p.y = sym_concrete(p.y); p.z = sym_concrete(p.z); return p; };
    std::vector<IP> a{ip3(1, true), ip3(1, false)}, b{ip3(PARAM("zb", 1), false), ip3(PARAM("zb", 1), false)};
    if (PARAM("na", 2) == 3) a.push_back(ip3(0, false));
    for (auto* v : {&a, &b}) for (size_t i = 0; i + 1 < v->size(); i++) ASSUME((*v)[i].x != (*v)[i + 1].x || (*v)[i].y != (*v)[i + 1].y);
    Points3d pa, pb; Id id = 0;
    for (auto& p : a) pa.push_back(pt(++id, p));
    for (auto& p : b) pb.push_back(pt(++id, p));
    LineString3d la(100, pa), lb(101, pb);
    ConstLineString3d x = la, y = lb;
    bool meet = false; double best = 1e300;
    for (size_t i = 0; i + 1 < a.size(); i++) {
      IP p = a[i], q = a[i + 1], r = b[0], s = b[1]; p.z = q.z = r.z = s.z = 0;
      if (cr(q - p, s - r) == 0) { ASSUME(!segX(p, q, r, s)); continue; }  // parallel and touching: no unique position
      if (!segX(p, q, r, s)) continue;
      meet = true;
      double D = cr(q - p, s - r), t = cr(r - p, s - r) / D, u = cr(r - p, q - p) / D;
      best = std::min(best, std::fabs(a[i].z + t * (a[i + 1].z - a[i].z) - b[0].z - u * (b[1].z - b[0].z)));
    }
    if (!meet) REACH("apart");
    for (double tol : {0.5, 3., 12.}) {
      if (std::fabs(best - tol) < 1e-6) continue;
      bool want = meet && best < tol;
      if (want) REACH("crossing"); else if (meet) REACH("bridge");
      CHECK(geometry::intersects3d(x, y, tol) == want && geometry::intersects3d(y, x, tol) == want, "line strings cross where their heights are within the tolerance");
      CHECK(geometry::intersects3d(x.invert(), y, tol) == want, "crossings do not depend on the direction");
      CHECK(geometry::intersects3d(utils::toHybrid(x), utils::toHybrid(y), tol) == want, "crossings of other representations");
    }
    CHECK(geometry::intersects3d(x, y) == geometry::intersects3d(x, y, 3.), "default tolerance");
  }
}
