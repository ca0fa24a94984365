// R04: routes against the route definition over the step relation of the network
#include "net.h"
using namespace net;
namespace {
std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
struct Oracle {
  const Net& w; std::set<int> m; bool lc; int id; const std::set<std::pair<int, int>>& conf;
  Kind kind(const Step& s) const { if ((s.k == LEFT || s.k == RIGHT) && s.cost[id] == INF) return s.k == LEFT ? ALEFT : ARIGHT; return s.k; }
  bool drive(const Step& s) const { Kind k = kind(s); return (k == SUCC && s.cost[id] != INF) || (lc && (k == LEFT || k == RIGHT)); }
  bool isSucc(const Step& s) const { return s.k == SUCC && s.cost[id] != INF; }
  std::vector<int> next(int i, bool back) const { std::vector<int> r; for (auto& s : w.steps) if (isSucc(s) && m.count(s.from) && m.count(s.to) && (back ? s.to : s.from) == i) r.push_back(back ? s.from : s.to); return r; }
  bool cont(int a, int b) const { return next(a, false).size() == 1 && next(b, true).size() == 1; }  // same lane continues
  int after(int i) const { auto n = next(i, false); return n.size() == 1 && next(n[0], true).size() == 1 ? n[0] : -1; }
  int before(int i) const { auto n = next(i, true); return n.size() == 1 && next(n[0], false).size() == 1 ? n[0] : -1; }
  std::vector<int> remaining(int i) const { std::vector<int> r{i}; while ((i = after(i)) >= 0 && i != r[0]) r.push_back(i); return r; }
  std::vector<int> full(int i) const { int b = i, p; while ((p = before(b)) >= 0 && p != i) b = p; return remaining(p == i ? i : b); }
  std::set<int> reach(int a, bool back) const { std::set<int> r{a}; bool ch = true; while (ch) { ch = false; for (auto& s : w.steps) if (drive(s) && m.count(s.from) && m.count(s.to) && r.count(back ? s.to : s.from) && r.insert(back ? s.from : s.to).second) ch = true; } return r; }
};
RelationType rel(Kind k) { return k == SUCC ? RelationType::Successor : k == LEFT ? RelationType::Left : k == RIGHT ? RelationType::Right : k == ALEFT ? RelationType::AdjacentLeft : k == ARIGHT ? RelationType::AdjacentRight : RelationType::Conflicting; }
// everything a route can be asked about lanelet i
void queries(const Oracle& o, const Route& r, const std::vector<int>& sp, int i) {
  const Net& w = o.w; ConstLanelet l = w.n[i].l; bool in = o.m.count(i);
  std::vector<int> none;
  CHECK(sorted(idx(w, r.following(l))) == sorted(in ? o.next(i, false) : none), "following lanelets in the route");
  CHECK(sorted(idx(w, r.previous(l))) == sorted(in ? o.next(i, true) : none), "previous lanelets in the route");
  auto fr = r.followingRelations(l), pr = r.previousRelations(l);
  CHECK(fr.size() == r.following(l).size() && pr.size() == r.previous(l).size(), "successor relations");
  for (auto& x : fr) CHECK(x.relationType == RelationType::Successor && step(w, i, w.find(x.lanelet)), "successor relation");
  for (auto& x : pr) CHECK(x.relationType == RelationType::Successor && step(w, w.find(x.lanelet), i), "predecessor relation");
  for (int side = 0; side < 2; side++) {
    auto one = side ? r.rightRelation(l) : r.leftRelation(l); auto all = side ? r.rightRelations(l) : r.leftRelations(l);
    std::vector<std::pair<int, RelationType>> exp; int c = i;
    while (in && o.lc && exp.size() < 9) {
      int nx = -1; Kind k = NONE; for (auto& s : w.steps) { Kind q = o.kind(s); if (s.from == c && o.m.count(s.to) && (side ? q == RIGHT || q == ARIGHT : q == LEFT || q == ALEFT)) { nx = s.to; k = q; } }
      if (nx < 0) break;
      exp.push_back({nx, rel(k)}); c = nx;
    }
    CHECK(!!one == !exp.empty() && (!one || (w.find(one->lanelet) == exp[0].first && one->relationType == exp[0].second)), "neighbour in the route");
    CHECK(all.size() == exp.size(), "all neighbours to one side in the route");
    for (size_t k = 0; k < all.size(); k++) CHECK(w.find(all[k].lanelet) == exp[k].first && all[k].relationType == exp[k].second, "all neighbours to one side in the route");
    if (!exp.empty()) REACH("neighbour");
  }
  CHECK(idx(w, r.remainingLane(l)) == (in ? o.remaining(i) : none), "remaining lane"); CHECK(idx(w, r.fullLane(l)) == (in ? o.full(i) : none), "full lane");
  if (in && o.full(i).size() > 2) REACH("long lane");
  std::vector<int> ci, cm; for (size_t j = 0; j < w.n.size(); j++) if (in && o.conf.count({i, (int)j})) { cm.push_back(j); if (o.m.count(j)) ci.push_back(j); }
  CHECK(sorted(idx(w, r.conflictingInRoute(l))) == ci, "conflicting lanelets in the route"); CHECK(sorted(idx(w, r.conflictingInMap(l))) == cm, "conflicting lanelets in the map");
  if (cm.size() > ci.size()) REACH("conflict outside");
  // remaining shortest path
  std::vector<int> rem; auto it = std::find(sp.begin(), sp.end(), i);
  if (it != sp.end()) { if (sp.size() > 1 && sp.front() == sp.back()) { rem.assign(it, sp.end() - 1); if (it != sp.end() - 1) rem.insert(rem.end(), sp.begin(), it); } else rem.assign(it, sp.end()); }
  CHECK(idx(w, r.remainingShortestPath(l)) == rem, "remaining shortest path");
  // visits: everything reachable in the route, nearest first
  for (int back = 0; back < 2; back++) {
    std::vector<int> v; std::vector<double> c; bool bad = false;
    auto f = [&](const LaneletVisitInformation& x) { v.push_back(w.find(x.lanelet)); c.push_back(x.cost); if (v.size() > 1 && std::find(v.begin(), v.end(), w.find(x.predecessor)) == v.end()) bad = true; return true; };
    if (back) r.forEachPredecessor(l, f); else r.forEachSuccessor(l, f);
    auto e = in ? o.reach(i, back) : std::set<int>{};
    CHECK(std::set<int>(v.begin(), v.end()) == e && v.size() == e.size() && (!in || v[0] == i), "visited lanelets"); CHECK(!bad, "predecessor of a visit");
    for (size_t k = 1; k < v.size(); k++) {  // cheapest: no step from a visited lanelet offers less, one step attains it
      bool at = false; for (auto& s : w.steps) if (o.drive(s) && o.m.count(s.from) && o.m.count(s.to) && (back ? s.from : s.to) == v[k]) { size_t q = std::find(v.begin(), v.end(), back ? s.to : s.from) - v.begin(); if (q == v.size()) continue; CHECK(c[k] <= c[q] + s.cost[o.id], "visited by a cheapest way"); at = at || (q < k && c[k] == c[q] + s.cost[o.id]); }
      CHECK(at && c[k - 1] <= c[k], "cost of a visit");
    }
  }
}
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0), K = PARAM("K", 0), perm = PARAM("perm", 1);
  Net w; std::set<std::pair<int, int>> conf;
  auto L = [&](std::vector<int> p) { return w.lines[w.line(p)]; };
  auto both = [&](int a, int b) { conf.insert({a, b}); conf.insert({b, a}); };
  if (mode == 0) grid(w, PARAM("C", 3), PARAM("R", 2));
  else if (mode == 1) { docGraph(w); }
  else if (mode == 2) { grid(w, PARAM("C", 2), 2); for (size_t i = 1; i < w.n.size(); i += 2) { w.n[i].pass = sym_bool("both ways"); if (w.in(i)) both(i, i - 1); } }
  else if (mode == 3) {  // two lanes in a ring, optionally entered and left at lane 1
    static const int X[3] = {0, 10, 5}, Y[3] = {0, 0, 10}; int p[3][3];
    for (int k = 0; k < 3; k++) for (int r = 0; r < 3; r++) p[r][k] = w.pt(5 + (X[k] - 5) * (r + 1), 3 + (Y[k] - 3) * (r + 1));
    Line b[3][3]; for (int r = 0; r < 3; r++) for (int k = 0; k < 3; k++) b[r][k] = L({p[r][k], p[r][(k + 1) % 3]});
    for (int r = 0; r < PARAM("R", 2); r++) for (int k = 0; k < 3; k++) w.lanelet(b[r][k], b[r + 1][k]);
  } else {  // a lane that leaves and returns, overlapping the straight lane or not; a crossing lanelet and a crossing area
    int t[4], b[4]; for (int i = 0; i < 4; i++) { t[i] = w.pt(10 * i, 3); b[i] = w.pt(10 * i, 0); }
    for (int i = 0; i < 3; i++) w.lanelet(L({t[i], t[i + 1]}), L({b[i], b[i + 1]}));
    bool near = sym_bool("bypass overlaps"); int u = w.pt(15, near ? -2 : -9), v = w.pt(15, near ? -5 : -12);
    w.lanelet(L({t[1], u}), L({b[1], v})); w.lanelet(L({u, t[2]}), L({v, b[2]}));
    w.lanelet(L({w.pt(4, 8), w.pt(4, -5)}), L({w.pt(2, 8), w.pt(2, -5)}));
    int q0 = w.pt(24, 5), q1 = w.pt(26, 5), q2 = w.pt(26, 1), q3 = w.pt(24, 1); w.area({L({q0, q1}), L({q1, q2}), L({q2, q3}), L({q3, q0})});
    both(0, 10); both(4, 12); both(2, 6); both(2, 8);
  }
  int nn = w.n.size();
  if (perm & 1) for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (w.in(i) && w.in(j) && (w.leftOf(i, j) || w.leftOf(j, i))) w.change[{i, j}] = sym_bool("change");
  if (perm & 2) for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (i != j && w.in(i) && w.in(j) && w.follows(i, j)) w.pass[{i, j}] = sym_bool("step");
  if (perm & 4) for (int i = 0; i < nn; i++) if (w.n[i].area || !w.n[i].inv) w.n[i].pass = sym_bool("pass");
  int useId = PARAM("ids", 0) ? pick("cost module", 0, 1) : 0;
  makeSteps(w, [&](const Step& s, int id) {
    if (id != useId) return s.k == SUCC ? 1. : 3.;
    if (!K) return s.k == SUCC ? 2. : 1.;
    double c = sym_grid("cost", 0, K, 1); return PARAM("inf", 0) && c == K / 2. ? INF : c;
  });
  if (mode == 4) {  // steps from and to the bypass exclude the conflicts between neighbours in travel direction
  }
  if (perm & 4) { std::set<std::pair<int, int>> c2; for (auto& c : conf) if (w.in(c.first) && w.in(c.second)) c2.insert(c); conf = c2; }
  Rules rules(w); std::shared_ptr<Cost> c0, c1; auto g = build(w, rules, c0, c1);
  if (PARAM("geo", 0) || mode == 1 || mode == 4) { conf.clear(); for (int i = 0; i < nn; i++) for (auto& c : g->conflicting(w.n[i].any())) conf.insert({i, w.find(c)}); if (!conf.empty()) REACH("conflicts"); }
  bool lc = PARAM("lc", 1) == 2 ? sym_bool("lane changes") : true;
  std::vector<int> nodes; for (int i = 0; i < nn; i++) if (!w.n[i].area && w.in(i)) nodes.push_back(i);
  if (nodes.empty()) return;
  int from = PARAM("from", -1), to = PARAM("to", -1), via = -1;
  if (from < 0) from = nodes[pick("from", 0, nodes.size() - 1)];
  if (to < 0) to = nodes[pick("to", 0, nodes.size() - 1)];
  if (PARAM("via", 0)) via = nodes[pick("via", 0, nodes.size() - 1)];
  auto F = w.n[from].l, T = w.n[to].l;
  auto p = via < 0 ? g->shortestPath(F, T, useId, lc) : g->shortestPathVia(F, {w.n[via].l}, T, useId, lc);
  auto r = via < 0 ? g->getRoute(F, T, useId, lc) : g->getRouteVia(F, {w.n[via].l}, T, useId, lc);
  CHECK(!!p == !!r, "a route exists exactly when there is a shortest path");
  if (!r) { REACH("no route"); return; }
  auto sp = idx(w, *p); CHECK(idx(w, r->shortestPath()) == sp, "shortest path of the route");
  Oracle o{w, {}, lc, useId, conf};
  for (int i = 0; i < nn; i++) if (!w.n[i].area && r->contains(w.n[i].l)) o.m.insert(i);
  for (int i : sp) CHECK(o.m.count(i), "the route contains its shortest path");
  CHECK(r->size() == o.m.size(), "size of the route");
  auto fw = o.reach(from, false), bw = o.reach(to, true);
  for (int i : o.m) { CHECK(fw.count(i), "every lanelet of the route is reachable from its start"); CHECK(bw.count(i), "the destination is reachable from every lanelet of the route"); }
  if (o.m.size() > std::set<int>(sp.begin(), sp.end()).size()) REACH("more than the shortest path");
  // lanelets beside the route that lead back to it
  for (auto& s : w.steps) for (auto& q : w.steps) if (lc && s.from == q.to && s.to == q.from && o.m.count(s.from) && (o.kind(s) == LEFT || o.kind(s) == RIGHT) && (o.kind(q) == LEFT || o.kind(q) == RIGHT)) CHECK(o.m.count(s.to), "a lanelet from which one can change to and from the route belongs to it");
  if (mode == 0 && lc) {  // parallel lanes: whatever runs beside the route and leads back to it
    std::set<int> beside; for (auto& s : w.steps) if (s.k != SUCC && o.m.count(s.from) && !o.m.count(s.to)) beside.insert(s.to);
    auto grow = [&](bool back) { std::set<int> x; bool ch = true; while (ch) { ch = false; for (auto& s : w.steps) { int a = back ? s.to : s.from, b = back ? s.from : s.to; if (o.drive(s) && (o.m.count(a) || x.count(a)) && beside.count(b) && x.insert(b).second) ch = true; } } return x; };
    auto a = grow(false), b = grow(true); for (int i : a) CHECK(!b.count(i), "a lane beside the route that leads back to it belongs to it");
  }
  std::set<std::vector<int>> lanes; for (int i : o.m) { auto f = o.full(i); lanes.insert(sorted(f)); }
  CHECK(r->numLanes() == lanes.size(), "number of lanes"); if (lanes.size() > 2) REACH("lanes");
  std::set<Id> ids; for (int i : o.m) ids.insert(w.n[i].l.id()); auto sm = r->laneletSubmap();
  CHECK(sm->laneletLayer.size() == ids.size(), "lanelets of the submap"); for (Id i : ids) CHECK(sm->laneletLayer.exists(i), "lanelets of the submap");
  std::set<int> ca, cb; for (auto& c : conf) if (o.m.count(c.first)) ca.insert(c.second); for (int i : idx(w, r->allConflictingInMap())) cb.insert(i); CHECK(ca == cb, "all conflicts in the map");
  if (mode == 0) CHECK(r->checkValidity().empty(), "a consistent route is valid");
  auto dbg = r->getDebugLaneletMap(); for (int i : o.m) if (o.m.size() > 1) CHECK(dbg->pointLayer.exists(w.n[i].l.id()), "debug map shows every lanelet");
  for (int i = 0; i < nn; i++) if (!w.n[i].area) { queries(o, *r, sp, i); if (!o.m.count(i)) REACH("outside"); }
  if (sp.size() > 1 && sp.front() == sp.back()) REACH("circular");
}
