// small lane networks with explicit rules and costs, and the step relation read off the shared points and lines (independent oracle)
#pragma once
#include "h.h"
#include <algorithm>
#include <limits>
#include <array>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/LaneletPath.h>
#include <lanelet2_routing/RoutingCost.h>
#include <lanelet2_routing/Exceptions.h>
#include <lanelet2_traffic_rules/TrafficRules.h>
namespace net {
using namespace lanelet::routing;
constexpr double INF = std::numeric_limits<double>::infinity();
struct Line { LineString3d l; int id, f, b; bool inv;
  Line invert() const { return {l.invert(), id, b, f, !inv}; }
  bool operator==(const Line& o) const { return id == o.id && inv == o.inv; } };
struct Node { bool area = false; ConstLanelet l; ConstArea a; Line left, right; bool pass = true; int base = 0; bool inv = false; std::vector<Line> outer;
  ConstLaneletOrArea any() const { return area ? ConstLaneletOrArea(a) : ConstLaneletOrArea(l); } };
enum Kind { NONE, SUCC, LEFT, RIGHT, ALEFT, ARIGHT, CONF, AREA };
struct Step { int from, to; Kind k; double cost[2]; };
struct Net {
  std::vector<Point3d> pts; std::vector<Line> lines; std::vector<Node> n; LaneletMapPtr map;
  std::map<std::pair<int, int>, bool> change, pass;   // permissions by node pair (default: true)
  std::map<std::pair<int, int>, int> costIdx;
  std::vector<Step> steps;
  int nl = 0;
  int pt(double x, double y, double z = 0) { pts.emplace_back(1000 + pts.size(), x, y, z); return pts.size() - 1; }
  int line(std::vector<int> p) { Points3d q; for (int i : p) q.push_back(pts[i]); int id = 2000 + lines.size(); lines.push_back({LineString3d(id, q), id, p.front(), p.back(), false}); return lines.size() - 1; }
  int lanelet(Line l, Line r, Id id = 0) {  // adds the forward and the reverse node
    Lanelet x(id ? id : Id(100 + nl), l.l, r.l); int b = n.size();
    Node f; f.l = x; f.left = l; f.right = r; f.base = b; n.push_back(f);
    Node i; i.l = x.invert(); i.left = r.invert(); i.right = l.invert(); i.base = b; i.inv = true; i.pass = false; n.push_back(i);
    nl++; map->add(x); return b;
  }
  int area(std::vector<Line> o) { LineStrings3d ls; for (auto& x : o) ls.push_back(x.l); Area a(Id(100 + nl++), ls); Node k; k.area = true; k.a = a; k.outer = o; k.base = n.size(); n.push_back(k); map->add(a); return n.size() - 1; }
  Net() : map(std::make_shared<LaneletMap>()) {}
  int find(const ConstLanelet& l) const { for (size_t i = 0; i < n.size(); i++) if (!n[i].area && n[i].l == l) return i; return -1; }
  int find(const ConstArea& l) const { for (size_t i = 0; i < n.size(); i++) if (n[i].area && n[i].a == l) return i; return -1; }
  int find(const ConstLaneletOrArea& l) const { return l.isArea() ? find(*l.area()) : find(*l.lanelet()); }
  static bool flag(const std::map<std::pair<int, int>, bool>& m, int a, int b) { auto i = m.find({a, b}); return i == m.end() ? true : i->second; }
  bool in(int i) const { return n[i].pass && (n[i].area || !n[i].inv || n[i - 1].pass); }   // part of the graph
  bool follows(int a, int b) const {
    const Node &x = n[a], &y = n[b];
    if (x.area && y.area) { for (auto& l : x.outer) for (auto& m : y.outer) if (l.id == m.id) return true; return false; }
    if (x.area) { for (auto& l : x.outer) if ((l.f == y.left.f && l.b == y.right.f) || (l.b == y.left.f && l.f == y.right.f)) return true; return false; }
    if (y.area) { for (auto& l : y.outer) if ((l.f == x.left.b && l.b == x.right.b) || (l.b == x.left.b && l.f == x.right.b)) return true; return false; }
    return x.left.b == y.left.f && x.right.b == y.right.f;
  }
  bool leftOf(int a, int b) const { return !n[a].area && !n[b].area && n[a].right == n[b].left; }
  Kind kind(int a, int b) const {   // without conflicts
    if (a == b || !in(a) || !in(b)) return NONE;
    if (follows(a, b) && flag(pass, a, b)) return n[a].area || n[b].area ? AREA : SUCC;
    if (leftOf(b, a)) return flag(change, a, b) ? LEFT : ALEFT;
    if (leftOf(a, b)) return flag(change, a, b) ? RIGHT : ARIGHT;
    return NONE;
  }
};
struct Rules : traffic_rules::TrafficRules {
  const Net& w; explicit Rules(const Net& w) : w(w) {}
  bool canPass(const ConstLanelet& l) const override { int i = w.find(l); return i >= 0 && w.n[i].pass; }
  bool canPass(const ConstArea& a) const override { int i = w.find(a); return i >= 0 && w.n[i].pass; }
  bool step(int a, int b) const { return a >= 0 && b >= 0 && w.n[a].pass && w.n[b].pass && Net::flag(w.pass, a, b); }
  bool canPass(const ConstLanelet& a, const ConstLanelet& b) const override { return step(w.find(a), w.find(b)); }
  bool canPass(const ConstLanelet& a, const ConstArea& b) const override { return step(w.find(a), w.find(b)) && w.follows(w.find(a), w.find(b)); }
  bool canPass(const ConstArea& a, const ConstLanelet& b) const override { return step(w.find(a), w.find(b)) && w.follows(w.find(a), w.find(b)); }
  bool canPass(const ConstArea& a, const ConstArea& b) const override { return step(w.find(a), w.find(b)) && w.follows(w.find(a), w.find(b)); }
  bool canChangeLane(const ConstLanelet& a, const ConstLanelet& b) const override { int i = w.find(a), j = w.find(b); return i >= 0 && j >= 0 && Net::flag(w.change, i, j); }
  traffic_rules::SpeedLimitInformation speedLimit(const ConstLanelet&) const override { return {}; }
  traffic_rules::SpeedLimitInformation speedLimit(const ConstArea&) const override { return {}; }
  bool isOneWay(const ConstLanelet& l) const override { return !w.n[w.find(l.inverted() ? l : l.invert())].pass; }
  bool hasDynamicRules(const ConstLanelet&) const override { return false; }
};
// costs looked up by step; sequences of lane changes are recorded
struct Cost : RoutingCost {
  const Net& w; int id; mutable std::vector<std::pair<std::vector<int>, std::vector<int>>> seqs;
  Cost(const Net& w, int id) : w(w), id(id) {}
  double of(int a, int b) const { for (auto& s : w.steps) if (s.from == a && s.to == b) return s.cost[id]; return 1e6; }
  double getCostSucceeding(const traffic_rules::TrafficRules&, const ConstLaneletOrArea& a, const ConstLaneletOrArea& b) const override { return of(w.find(a), w.find(b)); }
  double getCostLaneChange(const traffic_rules::TrafficRules&, const ConstLanelets& a, const ConstLanelets& b) const override {
    std::vector<int> x, y; for (auto& l : a) x.push_back(w.find(l)); for (auto& l : b) y.push_back(w.find(l));
    seqs.push_back({x, y}); return of(x.front(), y.front());
  }
};
// all steps the rules allow, with costs: module 0 = given, module 1 = number of steps (given per kind)
template <typename F> void makeSteps(Net& w, F cost) {
  for (size_t a = 0; a < w.n.size(); a++) for (size_t b = 0; b < w.n.size(); b++) {
    Kind k = w.kind(a, b);
    if (k != NONE) { Step s{(int)a, (int)b, k, {0, 0}}; if (k == SUCC || k == LEFT || k == RIGHT || k == AREA) { s.cost[0] = cost(s, 0); s.cost[1] = cost(s, 1); } w.steps.push_back(s); }
  }
}
inline bool usable(Kind k, bool lc, bool areas) { return k == SUCC || (lc && (k == LEFT || k == RIGHT)) || (areas && k == AREA); }
// grid of parallel lanes heading east; node of lane r in column c is 2*(c*R+r); lane r+1 is left of lane r
inline void grid(Net& w, int C, int R) {
  std::vector<std::vector<int>> p(C + 1, std::vector<int>(R + 1));
  for (int c = 0; c <= C; c++) for (int r = 0; r <= R; r++) p[c][r] = w.pt(10 * c, 3 * r);
  std::vector<std::vector<int>> l(C, std::vector<int>(R + 1));
  for (int c = 0; c < C; c++) for (int r = 0; r <= R; r++) l[c][r] = w.line({p[c][r], p[c + 1][r]});
  for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) w.lanelet(w.lines[l[c][r + 1]], w.lines[l[c][r]]);
}
// the graph of the documentation of PossiblePathsParams: 1-2-3-4-5, 1-6-7-4 and 8-9 beside 6-7 (nodes 0,2,..,16)
inline void docGraph(Net& w) {
  int t[6], b[6]; for (int i = 0; i < 6; i++) { t[i] = w.pt(10 * i, 3); b[i] = w.pt(10 * i, 0); }
  auto L = [&](std::vector<int> p) { return w.lines[w.line(p)]; };
  for (int i = 0; i < 5; i++) w.lanelet(L({t[i], t[i + 1]}), L({b[i], b[i + 1]}));
  int u = w.pt(20, -3), v = w.pt(20, -6), x = w.pt(20, -9), s = w.pt(10, -3), e = w.pt(30, -3);
  Line m1 = L({b[1], v}), m2 = L({v, b[3]});
  w.lanelet(L({t[1], u}), m1); w.lanelet(L({u, t[3]}), m2);
  w.lanelet(m1, L({s, x})); w.lanelet(m2, L({x, e}));
}
struct Paths { std::vector<std::vector<int>> p; };
// every simple path from a to b
inline void dfs(const Net& w, std::vector<int>& cur, int b, bool lc, bool ar, Paths& out, int id) {
  if (cur.back() == b) { out.p.push_back(cur); return; }
  for (auto& s : w.steps) if (s.from == cur.back() && usable(s.k, lc, ar) && s.cost[id] != INF && std::find(cur.begin(), cur.end(), s.to) == cur.end()) { cur.push_back(s.to); dfs(w, cur, b, lc, ar, out, id); cur.pop_back(); }
}
inline Paths paths(const Net& w, int a, int b, bool lc, bool ar, int id) { Paths r; if (!w.in(a) || !w.in(b)) return r; std::vector<int> c{a}; dfs(w, c, b, lc, ar, r, id); return r; }
inline const Step* step(const Net& w, int a, int b) { for (auto& s : w.steps) if (s.from == a && s.to == b) return &s; return nullptr; }
inline double cost(const Net& w, const std::vector<int>& p, int id) { double c = 0; for (size_t i = 0; i + 1 < p.size(); i++) c += step(w, p[i], p[i + 1])->cost[id]; return c; }
template <typename P> std::vector<int> idx(const Net& w, const P& p) { std::vector<int> r; for (auto& e : p) r.push_back(w.find(e)); return r; }
inline int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
inline RoutingGraphUPtr build(Net& w, const Rules& r, std::shared_ptr<Cost>& c0, std::shared_ptr<Cost>& c1, RoutingGraph::Configuration cfg = {}) {
  c0 = std::make_shared<Cost>(w, 0); c1 = std::make_shared<Cost>(w, 1);
  return RoutingGraph::build(*w.map, r, RoutingCostPtrs{c0, c1}, cfg);
}
}  // namespace net
