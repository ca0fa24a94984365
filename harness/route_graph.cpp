// R03: relations of the routing graph against shared borders, overlap and the traffic rules
#include "net.h"
using namespace net;
namespace {
struct Rect { int x0, y0, x1, y1; double z; };
std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
// left / right runs following one kind of relation
std::vector<int> run(const Net& w, int i, Kind k) { std::vector<int> r; while (true) { int n = -1; for (auto& s : w.steps) if (s.from == i && s.k == k) n = s.to; if (n < 0 || r.size() > 9) return r; r.push_back(n); i = n; } }
void relations(Net& w, const RoutingGraph& g, const std::set<std::pair<int, int>>& conf, bool unique, bool cc) {
  int nn = w.n.size();
  for (int i = 0; i < nn; i++) {
    std::vector<int> cf; for (int j = 0; j < nn; j++) if (conf.count({i, j})) cf.push_back(j);
    if (cc) CHECK(sorted(idx(w, g.conflicting(w.n[i].any()))) == cf, "conflicting elements");
    if (!cf.empty()) REACH("conflict");
    if (w.n[i].area) continue;
    ConstLanelet l = w.n[i].l;
    std::vector<int> fo, fl, pr, pl;
    for (auto& s : w.steps) {
      if (w.n[s.from].area || w.n[s.to].area) continue;
      bool lc = s.k == LEFT || s.k == RIGHT;
      if (s.from == i && s.k == SUCC) fo.push_back(s.to); if (s.from == i && (s.k == SUCC || lc)) fl.push_back(s.to);
      if (s.to == i && s.k == SUCC) pr.push_back(s.from); if (s.to == i && (s.k == SUCC || lc)) pl.push_back(s.from);
    }
    CHECK(sorted(idx(w, g.following(l))) == sorted(fo), "following"); CHECK(sorted(idx(w, g.following(l, true))) == sorted(fl), "following with lane changes");
    CHECK(sorted(idx(w, g.previous(l))) == sorted(pr), "previous"); CHECK(sorted(idx(w, g.previous(l, true))) == sorted(pl), "previous with lane changes");
    auto rel = [](Kind k) { return k == SUCC ? RelationType::Successor : k == LEFT ? RelationType::Left : k == RIGHT ? RelationType::Right : k == ALEFT ? RelationType::AdjacentLeft : k == ARIGHT ? RelationType::AdjacentRight : RelationType::Conflicting; };
    auto fr = g.followingRelations(l, true), pv = g.previousRelations(l, true);
    CHECK(fr.size() == fl.size() && pv.size() == pl.size(), "number of relations");
    for (auto& r : fr) { auto s = step(w, i, w.find(r.lanelet)); CHECK(s && r.relationType == rel(s->k), "following relation"); }
    for (auto& r : pv) { auto s = step(w, w.find(r.lanelet), i); CHECK(s && r.relationType == rel(s->k), "previous relation"); }
    for (int j = 0; j < nn; j++) {
      if (w.n[j].area) continue;
      auto s = step(w, i, j); auto a = g.routingRelation(l, w.n[j].l), b = g.routingRelation(l, w.n[j].l, true);
      CHECK(!!a == !!s && (!a || *a == rel(s->k)), "relation of two lanelets, conflicts left aside");
      if (cc) CHECK(!!b == (s || conf.count({i, j})), "relation of two lanelets"); if (cc && b) CHECK(s ? *b == rel(s->k) || conf.count({i, j}) : *b == RelationType::Conflicting, "relation of two lanelets");
    }
    if (!unique) continue;
    auto one = [&](Kind k) { auto r = run(w, i, k); return r.empty() ? -1 : r[0]; };
    auto op = [&](const Optional<ConstLanelet>& o) { return o ? w.find(*o) : -1; };
    CHECK(op(g.left(l)) == one(LEFT) && op(g.right(l)) == one(RIGHT) && op(g.adjacentLeft(l)) == one(ALEFT) && op(g.adjacentRight(l)) == one(ARIGHT), "neighbour lanelet");
    CHECK(idx(w, g.lefts(l)) == run(w, i, LEFT) && idx(w, g.rights(l)) == run(w, i, RIGHT), "reachable lanelets to one side");
    CHECK(idx(w, g.adjacentLefts(l)) == run(w, i, ALEFT) && idx(w, g.adjacentRights(l)) == run(w, i, ARIGHT), "adjacent lanelets to one side");
    auto bs = run(w, i, LEFT); std::reverse(bs.begin(), bs.end()); bs.push_back(i); for (int j : run(w, i, RIGHT)) bs.push_back(j);
    CHECK(idx(w, g.besides(l)) == bs, "lanelets besides, left to right");
    for (int side = 0; side < 2; side++) {
      auto r = side ? g.rightRelations(l) : g.leftRelations(l); int c = i; size_t k = 0;
      while (true) {
        const Step* nx = nullptr; for (auto& s : w.steps) if (s.from == c && (side ? s.k == RIGHT || s.k == ARIGHT : s.k == LEFT || s.k == ALEFT)) nx = &s;
        if (!nx) break;
        CHECK(k < r.size() && w.find(r[k].lanelet) == nx->to && r[k].relationType == rel(nx->k), "all relations to one side"); k++; c = nx->to;
      }
      CHECK(k == r.size(), "nothing beyond the last neighbour"); if (k > 1) REACH("three lanes");
    }
    if (!w.in(i)) { REACH("not in the graph"); CHECK(!g.left(l) && !g.right(l) && g.lefts(l).empty() && g.conflicting(l).empty(), "nothing for lanelets outside the graph"); }
  }
  if (unique) CHECK(g.checkValidity(false).empty(), "a consistent graph is valid");
  auto sm = g.passableSubmap(); size_t cnt = 0;
  for (int i = 0; i < nn; i++) if (w.in(i) && !w.n[i].inv) { cnt++; CHECK(w.n[i].area ? sm->areaLayer.exists(w.n[i].a.id()) : sm->laneletLayer.exists(w.n[i].l.id()), "passable elements are in the submap"); }
  CHECK(sm->laneletLayer.size() + sm->areaLayer.size() == cnt, "nothing else is in the submap");
}
// lane changes are costed along the whole stretch ahead on which both lanes run side by side without branching, whatever the ids and merging lanes
void sequences(Net& w, const Cost& c) {
  auto succ = [&](int a) { std::vector<int> r; for (auto& s : w.steps) if (s.k == SUCC && s.from == a) r.push_back(s.to); return r; };
  auto change = [&](int a, int b) { auto s = step(w, a, b); return s && (s->k == LEFT || s->k == RIGHT) ? s->k : NONE; };
  std::map<std::pair<int, int>, std::pair<std::vector<int>, std::vector<int>>> seen;
  for (auto& q : c.seqs) {
    auto &x = q.first, &y = q.second;
    CHECK(x.size() == y.size() && !x.empty(), "lane change sequences are parallel");
    for (size_t i = 0; i < x.size(); i++) { CHECK(change(x[i], y[i]) == change(x[0], y[0]) && change(x[i], y[i]) != NONE, "lane change allowed along the sequence"); if (i) CHECK(step(w, x[i - 1], x[i]) && step(w, x[i - 1], x[i])->k == SUCC && step(w, y[i - 1], y[i]) && step(w, y[i - 1], y[i])->k == SUCC, "lane change sequence follows the lanes"); }
    CHECK(seen.insert({{x[0], y[0]}, q}).second, "each lane change is costed once");
  }
  for (auto& s : w.steps) if (s.k == LEFT || s.k == RIGHT) {
    CHECK(seen.count({s.from, s.to}), "each lane change is costed");
    std::vector<int> x{s.from}, y{s.to};
    while (true) {
      auto a = succ(x.back()), b = succ(y.back());
      if (a.size() != 1 || b.size() != 1 || change(a[0], b[0]) != s.k || std::count(x.begin(), x.end(), a[0])) break;
      x.push_back(a[0]); y.push_back(b[0]);
    }
    if (x.size() > 1) REACH("sequence");
    CHECK(seen[std::make_pair(s.from, s.to)].first == x && seen[std::make_pair(s.from, s.to)].second == y, "lane change costed along the whole common stretch");
  }
}
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0);
  Net w; std::set<std::pair<int, int>> conf; RoutingGraph::Configuration cfg;
  std::set<std::pair<int, int>> inf;
  bool unique = true;
  auto neigh = [&](int i, int j) { return w.in(i) && w.in(j) && (w.leftOf(i, j) || w.leftOf(j, i)); };
  if (mode == 0) {  // parallel lanes, one direction
    grid(w, PARAM("C", 2), PARAM("R", 2));
    int nn = w.n.size(), perm = PARAM("perm", 7);
    for (int i = 0; i < nn; i += 2) if (perm & 1) w.n[i].pass = sym_bool("pass");
    for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (i != j && w.in(i) && w.in(j)) {
      if ((perm & 2) && w.follows(i, j)) w.pass[{i, j}] = sym_bool("step");
      if ((perm & 4) && neigh(i, j)) { int c = pick("change", 0, PARAM("inf", 1) ? 2 : 1); w.change[{i, j}] = c > 0; if (c == 2) inf.insert({i, j}); }
    }
  } else if (mode == 1) {  // both directions
    grid(w, PARAM("C", 2), PARAM("R", 2));
    int nn = w.n.size();
    for (int i = 1; i < nn; i += 2) w.n[i].pass = sym_bool("both ways");
    for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (neigh(i, j)) w.change[{i, j}] = sym_bool("change");
  } else if (mode == 2) {  // lanes that branch and merge: the common stretch of lane changes must not depend on the ids
    int y = PARAM("y", 0);
    int t[5], m[5], b[5]; for (int i = 0; i < 4; i++) { t[i] = w.pt(10 * i, 6); m[i] = w.pt(10 * i, 3); b[i] = w.pt(10 * i, 0); }
    auto L = [&](std::vector<int> p) { return w.lines[w.line(p)]; };
    int order = pick("id order", 0, 5); static const int perm[6][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};
    std::vector<Line> tl, ml, bl; for (int i = 0; i < 3; i++) { tl.push_back(L({t[i], t[i + 1]})); ml.push_back(L({m[i], m[i + 1]})); bl.push_back(L({b[i], b[i + 1]})); }
    for (int i = 0; i < 3; i++) w.lanelet(ml[i], bl[i], 100 + 7 * perm[order][i]);
    for (int i = 0; i < 3; i++) w.lanelet(tl[i], ml[i], 200 + 7 * perm[order][i]);
    int e1 = w.pt(30, -6), e2 = w.pt(30, -9), f1 = w.pt(0, -6), f2 = w.pt(0, -9);
    int k = pick("extra", 0, 4), c = 1 + y;
    if (k & 1) w.lanelet(L({m[c], e1}), L({b[c], e2}), 300);   // branches off the lower lane
    if (k & 2) w.lanelet(L({f1, m[c]}), L({f2, b[c]}), 301);   // merges into the lower lane
    if (k == 4) { int g1 = w.pt(30, 12), g2 = w.pt(30, 9); w.lanelet(L({t[c], g1}), L({m[c], g2}), 302); }  // branches off the upper lane
    int nn = w.n.size();
    for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (neigh(i, j)) w.change[{i, j}] = i / 2 < 3 ? sym_bool("change") : true;
  } else if (mode == 3) {  // rectangles that overlap, touch or lie apart, at one or two heights, usable one or both ways
    unique = false;
    std::vector<Rect> r{{0, 0, 4, 4, 0}};
    int x = pick("x", -2, 4), y2 = pick("y", -2, 4), sx = pick("w", 1, 3) * 2, sy = pick("h", 1, 2) * 3; double z = pick("z", 0, 2) * 3;
    r.push_back({x, y2, x + sx, y2 + sy, z});
    int kind[2] = {pick("a", 0, 2), pick("b", 0, 2)};  // lanelet one way, both ways, area
    double hgt = pick("height", 0, 2) * 4; if (hgt > 0) cfg[RoutingGraph::ParticipantHeight] = Attribute(hgt);
    int id[2];
    for (int i = 0; i < 2; i++) {
      auto& q = r[i]; int a = w.pt(q.x0, q.y0, q.z), b = w.pt(q.x1, q.y0, q.z), c = w.pt(q.x1, q.y1, q.z), d = w.pt(q.x0, q.y1, q.z);
      auto L = [&](std::vector<int> p) { return w.lines[w.line(p)]; };
      if (kind[i] == 2) id[i] = w.area({L({d, c}), L({c, b}), L({b, a}), L({a, d})});
      else { id[i] = w.lanelet(L({d, c}), L({a, b})); if (kind[i] == 1) w.n[id[i] + 1].pass = true; }
    }
    bool ov = r[0].x0 < r[1].x1 && r[1].x0 < r[0].x1 && r[0].y0 < r[1].y1 && r[1].y0 < r[0].y1 && (hgt == 0 || z < hgt);
    if (hgt > 0 && z == hgt) return;
    if (ov) REACH("overlap"); else REACH("no overlap");
    for (int i = 0; i < 2; i++) if (kind[i] == 1) { conf.insert({id[i], id[i] + 1}); conf.insert({id[i] + 1, id[i]}); }
    if (ov) for (int a = id[0]; a <= id[0] + (kind[0] == 1); a++) for (int b = id[1]; b <= id[1] + (kind[1] == 1); b++) { conf.insert({a, b}); conf.insert({b, a}); }
  } else if (mode == 5) {  // two lanes in a ring, with two lanes merging into it
    static const int X[3] = {0, 10, 5}, Y[3] = {0, 0, 10}; int p[3][3];
    for (int k = 0; k < 3; k++) for (int r = 0; r < 3; r++) p[r][k] = w.pt(5 + (X[k] - 5) * (r + 1), 3 + (Y[k] - 3) * (r + 1));
    auto L = [&](std::vector<int> p) { return w.lines[w.line(p)]; };
    int e[3]; for (int r = 0; r < 3; r++) e[r] = w.pt(-40, -3 * r);
    int order = pick("id order", 0, 2); Line b[3][4];
    for (int r = 0; r < 3; r++) { for (int k = 0; k < 3; k++) b[r][k] = L({p[r][k], p[r][(k + 1) % 3]}); b[r][3] = L({e[r], p[r][0]}); }
    for (int r = 0; r < 2; r++) for (int k = 0; k < 4; k++) w.lanelet(b[r][k], b[r + 1][k], 100 + 40 * r + 7 * (k == 3 ? 3 : (k + order) % 3));
    int nn = w.n.size(); for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (neigh(i, j)) w.change[{i, j}] = sym_bool("change");
  } else {  // lanelets and areas
    int a[5], b[5]; for (int i = 0; i < 5; i++) { a[i] = w.pt(10 * i, 10); b[i] = w.pt(10 * i, 0); }
    auto L = [&](std::vector<int> p) { return w.lines[w.line(p)]; };
    Line x1 = L({a[1], b[1]}), x2 = L({a[2], b[2]}), x3 = L({a[3], b[3]});
    w.lanelet(L({a[0], a[1]}), L({b[0], b[1]})); w.lanelet(L({a[3], a[4]}), L({b[3], b[4]}));
    w.area({x1.invert(), L({a[1], a[2]}), x2, L({b[2], b[1]})}); w.area({x2.invert(), L({a[2], a[3]}), x3, L({b[3], b[2]})});
    for (int i : {0, 1, 2, 3, 4, 5}) w.n[i].pass = sym_bool("pass");
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) if (i != j && w.in(i) && w.in(j) && w.follows(i, j)) { bool p = sym_bool("step"); w.pass[{i, j}] = p; }
  }
  if (mode == 1 || mode == 4) for (size_t i = 0; i < w.n.size(); i++) if (!w.n[i].area && w.n[i].inv && w.in(i)) { conf.insert({i, i - 1}); conf.insert({i - 1, i}); }
  makeSteps(w, [&](const Step& s, int id) { return (s.k == LEFT || s.k == RIGHT) && id == 0 && inf.count({s.from, s.to}) ? INF : 2. + id; });
  Rules rules(w); std::shared_ptr<Cost> c0, c1;
  auto g = build(w, rules, c0, c1, cfg);
  if (mode == 0 || mode == 2 || mode == 5) { sequences(w, *c0); sequences(w, *c1); }
  // infinite cost of a lane change turns it into a neighbour without lane change - for this cost module only
  for (auto& s : w.steps) if (s.cost[0] == INF) {
    REACH("infinite cost"); auto o = s.k == LEFT ? g->left(w.n[s.from].l, 1) : g->right(w.n[s.from].l, 1);
    CHECK(o && w.find(*o) == s.to, "the other cost module still allows the lane change"); s.k = s.k == LEFT ? ALEFT : ARIGHT;
  }
  relations(w, *g, conf, unique, mode != 2 && mode != 5);
  if (mode == 4) for (auto& s : w.steps) if (s.k == AREA) {  // area steps: reachable within one step
    REACH("area step"); auto r = g->reachableSetIncludingAreas(w.n[s.from].any(), 2., 0); CHECK(std::find(r.begin(), r.end(), w.n[s.to].any()) != r.end(), "permitted area step");
  }
  if (mode == 4) for (int i = 0; i < 6; i++) if (w.in(i)) { auto r = g->reachableSetIncludingAreas(w.n[i].any(), 2., 0); size_t n = 1; for (auto& s : w.steps) n += s.from == i; CHECK(r.size() == n, "no other area step"); }
}
