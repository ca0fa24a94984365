// M01: map matching against exact polygon distances and an independent Mahalanobis computation
#include "geo.h"
#include <lanelet2_matching/LaneletMatching.h>
#include <lanelet2_matching/Utilities.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
namespace {
using V = std::vector<IP>;
using namespace matching;
int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
Id nid = 100;
LineString3d ls(const V& v) { Points3d p; Id id = nid++; for (size_t i = 0; i < v.size(); i++) p.emplace_back(id * 10 + i, double(v[i].x), double(v[i].y), double(i)); return LineString3d(id, p); }
BasicPoint2d b2(IP p) { return BasicPoint2d(double(p.x), double(p.y)); }
V shift(V v, IP o) { for (IP& p : v) { p.x += o.x; p.y += o.y; } return v; }
bool meet(const Ring& a, const Ring& b) {
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) if (segX(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) return true;
  return strictlyIn(a, b[0]) || strictlyIn(b, a[0]);
}
Q dist2(const Ring& a, const Ring& b) {   // squared distance of closed regions; one point: a degenerate ring
  if (a.size() == 1) {
    if (onRing(b, a[0]) || strictlyIn(b, a[0])) return {0, 1};
    Q m{1000000, 1};
    for (size_t j = 0; j < b.size(); j++) { Q d = footOn(b[j], b[(j + 1) % b.size()], a[0]).d2; if (lt(d, m)) m = d; }
    return m;
  }
  if (meet(a, b)) return {0, 1};
  Q m{1000000, 1};
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) { Q d = segD2(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()]); if (lt(d, m)) m = d; }
  return m;
}
struct Lane { Lanelet ll; V left, right; Ring ring; };
Lane lane(const V& l, const V& r) {
  Lane x; x.left = l; x.right = r; x.ll = Lanelet(nid++, ls(l), ls(r)); x.ring = l;
  for (size_t i = r.size(); i-- > 0;) x.ring.push_back(r[i]);
  return x;
}
// squared Mahalanobis distance of every nearest pose on the centre line
std::vector<double> maha(const ConstLanelet& ll, const ObjectWithCovariance2d& o, double yaw) {
  auto c = ll.centerline();
  std::vector<std::pair<double, double>> p;
  for (size_t i = 0; i < c.size(); i++) p.emplace_back(c[i].x(), c[i].y());
  std::vector<double> s{0};
  for (size_t i = 1; i < p.size(); i++) s.push_back(s.back() + std::hypot(p[i].first - p[i - 1].first, p[i].second - p[i - 1].second));
  auto at = [&](double d) {
    d = std::max(0., std::min(d, s.back()));
    for (size_t i = 1; i < p.size(); i++) if (d <= s[i]) { double t = s[i] > s[i - 1] ? (d - s[i - 1]) / (s[i] - s[i - 1]) : 0; return std::make_pair(p[i - 1].first + t * (p[i].first - p[i - 1].first), p[i - 1].second + t * (p[i].second - p[i - 1].second)); }
    return p.back();
  };
  double x = o.pose.translation().x(), y = o.pose.translation().y(), best = 1e300;
  std::vector<std::pair<double, double>> feet;   // distance, arc length
  for (size_t i = 1; i < p.size(); i++) {
    double dx = p[i].first - p[i - 1].first, dy = p[i].second - p[i - 1].second, L = dx * dx + dy * dy;
    double t = L > 0 ? std::max(0., std::min(1., ((x - p[i - 1].first) * dx + (y - p[i - 1].second) * dy) / L)) : 0;
    double d = std::hypot(p[i - 1].first + t * dx - x, p[i - 1].second + t * dy - y);
    feet.emplace_back(d, s[i - 1] + t * std::sqrt(L)); best = std::min(best, d);
  }
  std::vector<double> out;
  for (auto& f : feet) if (f.first < best + 1e-9) {
    auto q = at(f.second), a = at(f.second - 0.5), b = at(f.second + 0.5);
    double dyaw = std::atan2(b.second - a.second, b.first - a.first) - yaw;
    dyaw = std::atan2(std::sin(dyaw), std::cos(dyaw));
    double ex = x - q.first, ey = y - q.second;
    double A = o.positionCovariance(0, 0), B = o.positionCovariance(0, 1), C = o.positionCovariance(1, 0), D = o.positionCovariance(1, 1), det = A * D - B * C;
    out.push_back(dyaw * dyaw * o.vonMisesKappa * o.vonMisesKappa + (ex * (D * ex - B * ey) + ey * (A * ey - C * ex)) / det);
  }
  return out;
}
template <typename M> void checkMatches(const M& m, const std::vector<Lane>& lanes, const Ring& hull, double maxDist) {
  size_t want = 0;
  for (auto& l : lanes) {
    Q d = dist2(hull, l.ring);
    double dd = std::sqrt(val(d));
    if (dd > maxDist && dd < maxDist + 1e-9) return;   // (cannot happen on the grid: limits are multiples of 1/4)
    bool in = dd <= maxDist + 1e-12;
    int fwd = 0, bwd = 0;
    for (auto& x : m) if (x.lanelet.constData() == l.ll.constData()) { (x.lanelet.inverted() ? bwd : fwd)++; CHECK(near(x.distance, dd), "distance of a match"); }
    CHECK(fwd == (in ? 1 : 0) && bwd == fwd, "both directions of every lanelet in range");
    if (in) want += 2; else REACH("out of range");
    if (in && dd > 0) REACH("near");
    if (in && dd == 0) REACH("inside");
  }
  CHECK(m.size() == want, "number of matches");
}
template <typename M> void checkSorted(const M& m) { for (size_t i = 1; i < m.size(); i++) CHECK(m[i - 1].distance <= m[i].distance, "sorted by distance"); }
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0), R = PARAM("R", 3);
  std::vector<Lane> lanes;
  auto map = std::make_shared<LaneletMap>();
  auto add = [&](const Lane& l) { lanes.push_back(l); map->add(l.ll); };
  if (mode == 0) {
    // a road of two bent lanelets, a third one anywhere, and a polygon
    add(lane({{0, 2}, {3, 2}, {5, 4}}, {{0, 0}, {4, 0}, {7, 3}}));
    add(lane({{-4, 2}, {0, 2}}, {{-4, 0}, {0, 0}}));
    int L = PARAM("L", 1);
    IP o{pick("lane x", -L, L), pick("lane y", -L, L)};
    int turn = pick("lane direction", 0, 1);
    add(turn ? lane(shift({{0, 5}, {2, 5}, {2, 7}}, o), shift({{0, 4}, {3, 4}, {3, 7}}, o)) : lane(shift({{1, 0}, {1, 3}}, o), shift({{3, 0}, {2, 3}}, o)));
    Ring ar{{-6, 6}, {-3, 6}, {-3, 4}, {-6, 4}};
    Points3d arp; for (size_t i = 0; i < ar.size(); i++) arp.emplace_back(9000 + i, double(ar[i].x), double(ar[i].y), 0.);
    map->add(Polygon3d(nid++, arp));
    Object2d obj;
    IP at{pick("object x", -R, R), pick("object y", -R, R)};
    int shape = pick("hull", 0, 4);
    Ring hull{at};
    if (shape == 1) hull = shift({{0, 0}, {1, 2}, {2, 0}}, at);
    if (shape == 2) hull = shift({{0, 0}, {2, 1}, {1, 2}}, at);             // counter clockwise
    if (shape == 3) hull = shift({{-1, -1}, {-1, 1}, {1, 1}, {1, -1}}, at);
    if (shape == 4) hull = shift({{-6, -5}, {-6, 8}, {8, 8}, {8, -5}}, at);  // around everything
    obj.pose.translation() = b2(shape == 2 ? IP{50, 50} : at);   // a hull is used instead of the position
    if (shape) for (IP p : hull) obj.absoluteHull.push_back(b2(p));
    if (shape == 3 || shape == 2) obj.absoluteHull.push_back(b2(hull[0]));   // closed ring, as suggested
    double lim = pick("limit", 0, 6) * 0.75;
    const LaneletMap& cm = *map;
    auto m = getDeterministicMatches(*map, obj, lim);
    auto c = getDeterministicMatches(cm, obj, lim);
    checkMatches(m, lanes, hull, lim); checkSorted(m);
    checkMatches(c, lanes, hull, lim); checkSorted(c);
    bool any = false, in = false;
    for (auto& l : lanes) { Q d = dist2(hull, l.ring); any |= std::sqrt(val(d)) <= lim; in |= d.n == 0; }
    CHECK(isCloseTo(map->laneletLayer, obj, lim) == any && isWithin(map->laneletLayer, obj) == in && isWithin(cm.laneletLayer, obj) == in, "close to and within the lanelets");
    Q da = dist2(hull, ar);
    CHECK(isCloseTo(cm.polygonLayer, obj, lim) == (std::sqrt(val(da)) <= lim) && isWithin(cm.polygonLayer, obj) == (da.n == 0), "close to and within the polygons");
    return;
  }
  if (mode == 1) {
    int geom = pick("geometry", 0, 3);
    if (geom == 0) add(lane({{0, 2}, {4, 2}}, {{0, 0}, {4, 0}}));
    if (geom == 1) add(lane({{0, 2}, {2, 2}, {2, 6}}, {{0, 0}, {4, 0}, {4, 6}}));
    if (geom == 2) add(lane({{0, 6}, {4, 0}}, {{-3, 4}, {1, -2}}));
    if (geom == 3) add(lane({{5, 0}, {1, 1}, {0, 1}}, {{5, 2}, {2, 3}, {0, 3}}));   // backwards, left and right exchanged in view
    add(lane({{6, 8}, {2, 8}}, {{6, 9}, {2, 9}}));
    if (PARAM("custom", 1) && pick("custom centre line", 0, 1)) lanes[0].ll.setCenterline(ls({{0, 1}, {1, 1}, {3, 2}, {3, 2}, {3, 4}}));
    ObjectWithCovariance2d obj;
    IP at{pick("object x", -1, 5), pick("object y", -1, 5)};
    const double yaws[] = {0, 1.2, -1.2, 2.9, -2.9, 1.5707963267948966, 3.1, 4.5};
    int yi = pick("orientation", 0, 7);
    double yaw = yaws[yi];
    obj.pose.translation() = b2(at);
    obj.pose.linear() = Eigen::Rotation2D<double>(yaw).matrix();
    const double kap[] = {0, 1, 5.5};
    int cov = pick("covariance", 0, 4);
    obj.vonMisesKappa = kap[PARAM("all", 0) ? pick("kappa", 0, 2) : int(unsigned(yi + cov + at.x + 5 * at.y + 25) % 3)];
    if (cov == 1) obj.positionCovariance << 2, 0, 0, 2;
    if (cov == 2) obj.positionCovariance << 3, 1, 1, 0.5;
    if (cov == 3) obj.positionCovariance << 1, 1, 1, 1;   // singular
    if (cov == 4) obj.positionCovariance << 0.25, -0.5, -0.5, 4;
    double lim = PARAM("limit", 3);
    Ring hull{at};
    const LaneletMap& cm = *map;
    bool some = false;
    for (auto& l : lanes) some |= std::sqrt(val(dist2(hull, l.ring))) <= lim;
    std::vector<LaneletMatchProbabilistic> m; std::vector<ConstLaneletMatchProbabilistic> c;
    bool threw = false, cthrew = false;
    try { m = getProbabilisticMatches(*map, obj, lim); } catch (const MatchingError&) { threw = true; }
    try { c = getProbabilisticMatches(cm, obj, lim); } catch (const MatchingError&) { cthrew = true; }
    bool bad = (cov == 0 || cov == 3) && some;
    CHECK(threw == bad && cthrew == bad, "degenerate covariances are rejected");
    if (bad) { REACH("rejected"); return; }
    checkMatches(m, lanes, hull, lim); checkMatches(c, lanes, hull, lim);
    for (size_t i = 1; i < m.size(); i++) CHECK(m[i - 1].mahalanobisDistSq <= m[i].mahalanobisDistSq && c[i - 1].mahalanobisDistSq <= c[i].mahalanobisDistSq, "sorted by Mahalanobis distance");
    for (auto& x : m) {
      bool ok = false;
      for (double w : maha(x.lanelet, obj, yaw)) ok |= std::fabs(w - x.mahalanobisDistSq) <= 1e-6 * (1 + w);
      CHECK(ok, "Mahalanobis distance of the nearest pose");
      CHECK(matching::utils::getMahalanobisDistSq(x.lanelet, obj) == x.mahalanobisDistSq, "utility agrees");
      REACH("matched");
      if (x.lanelet.inverted() && &x == &m[0]) REACH("against the direction");
    }
    return;
  }
  if (mode == 2) {   // rule based filter
    const char* sub[] = {"road", "walkway", "bicycle_lane", "highway"};
    std::vector<int> st, ow;
    for (int i = 0; i < 3; i++) {
      add(lane({{4 * i, 2}, {4 * i + 4, 2}}, {{4 * i, 0}, {4 * i + 4, 0}}));
      st.push_back(pick("subtype", 0, 3)); ow.push_back(pick("one way", 0, 2));   // default, yes, no
      lanes[i].ll.setAttribute("subtype", sub[st[i]]); lanes[i].ll.setAttribute("location", "urban");
      if (ow[i]) lanes[i].ll.setAttribute("one_way", ow[i] == 1);
    }
    int who = pick("participant", 0, 2);
    const char* part[] = {Participants::Vehicle, Participants::Pedestrian, Participants::Bicycle};
    traffic_rules::TrafficRulesPtr rules = traffic_rules::TrafficRulesFactory::create(Locations::Germany, part[who]);
    // walkways: pedestrians; roads: vehicles and bicycles; bicycle lanes: bicycles; highways: vehicles. Pedestrians use their ways in both directions
    auto may = [&](int i, bool inv) {
      bool p = who == 0 ? st[i] == 0 || st[i] == 3 : who == 1 ? st[i] == 1 : st[i] == 0 || st[i] == 2;
      bool oneWay = ow[i] ? ow[i] == 1 : st[i] != 1;
      return p && (!inv || !oneWay);
    };
    ObjectWithCovariance2d obj;
    obj.pose.translation() = BasicPoint2d(6., 1.);
    obj.positionCovariance << 1, 0, 0, 1; obj.vonMisesKappa = 1;
    auto all = getProbabilisticMatches(*map, obj, 2.);
    auto det = getDeterministicMatches(*static_cast<const LaneletMap*>(map.get()), obj, 2.);
    CHECK(all.size() == 6 && det.size() == 6, "three lanelets in range");
    auto f = removeNonRuleCompliantMatches(all, rules);
    auto g = removeNonRuleCompliantMatches(det, rules);
    size_t k = 0, n = 0;
    auto idx = [&](Id id) { int i = 0; while (lanes[i].ll.id() != id) i++; return i; };
    for (auto& x : all) if (may(idx(x.lanelet.id()), x.lanelet.inverted())) { CHECK(k < f.size() && f[k].lanelet == x.lanelet && f[k].mahalanobisDistSq == x.mahalanobisDistSq && f[k].distance == x.distance, "passable matches stay, in order"); k++; }
    for (auto& x : det) if (may(idx(x.lanelet.id()), x.lanelet.inverted())) { CHECK(n < g.size() && g[n].lanelet == x.lanelet && g[n].distance == x.distance, "passable matches stay, in order"); n++; }
    CHECK(f.size() == k && g.size() == n, "other matches are removed");
    CHECK(all.size() == 6 && det.size() == 6, "the input stays");
    REACH(k == 0 ? "none" : k == 6 ? "all" : "some");
  }
}
