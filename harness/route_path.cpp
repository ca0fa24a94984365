// R01: shortest paths against every simple path over the allowed steps
#include "net.h"
using namespace net;
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0), K = PARAM("K", 6);
  Net w;
  bool areas = false;
  if (mode == 0) grid(w, PARAM("C", 3), PARAM("R", 2));
  else if (mode == 1) docGraph(w);
  else if (mode == 2) {  // lanelet - area - area - lanelet with a parallel lanelet connection
    areas = true;
    int a[5], b[5]; for (int i = 0; i < 5; i++) { a[i] = w.pt(10 * i, 10); b[i] = w.pt(10 * i, 0); }
    auto L = [&](std::vector<int> p) { return w.lines[w.line(p)]; };
    Line x1 = L({a[1], b[1]}), x2 = L({a[2], b[2]}), x3 = L({a[3], b[3]});
    w.lanelet(L({a[0], a[1]}), L({b[0], b[1]}));
    w.lanelet(L({a[3], a[4]}), L({b[3], b[4]}));
    w.area({x1.invert(), L({a[1], a[2]}), x2, L({b[2], b[1]})});
    w.area({x2.invert(), L({a[2], a[3]}), x3, L({b[3], b[2]})});
    int m = w.pt(20, 14), k = w.pt(20, 12);
    w.lanelet(L({a[1], m}), L({b[1], k})); w.lanelet(L({m, a[3]}), L({k, b[3]}));
  } else {  // bidirectional lanelets: a lane that can be used both ways with two neighbours
    grid(w, 2, 2);
    for (int i : {1, 3, 5, 7}) w.n[i].pass = sym_bool("both ways");
  }
  int nn = w.n.size();
  int perm = PARAM("perm", 0);
  if (perm & 1) for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (w.in(i) && w.in(j) && (w.leftOf(i, j) || w.leftOf(j, i))) w.change[{i, j}] = sym_bool("change");
  if (perm & 2) for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (i != j && w.in(i) && w.in(j) && w.follows(i, j)) w.pass[{i, j}] = sym_bool("step");
  if (perm & 4) for (int i = 0; i < nn; i++) if (w.n[i].area || !w.n[i].inv) w.n[i].pass = sym_bool("pass");
  int useId = PARAM("ids", 0) ? pick("cost module", 0, 1) : 0;
  makeSteps(w, [&](const Step& s, int id) {
    if (id != useId) return s.k == SUCC ? 1. : 3.;
    double c = sym_grid("cost", 0, K, 1);
    if (PARAM("inf", 0) && c == K / 2.) return INF;
    return c;
  });
  Rules rules(w); std::shared_ptr<Cost> c0, c1;
  auto g = build(w, rules, c0, c1);
  bool lc = PARAM("lc", 1) == 2 ? sym_bool("lane changes") : true;
  std::vector<int> nodes; for (int i = 0; i < nn; i++) if (w.in(i) || perm & 4 || i == 1) nodes.push_back(i);
  int from = PARAM("from", -1), to = PARAM("to", -1);
  if (from < 0) from = nodes[pick("from", 0, nodes.size() - 1)];
  if (to < 0) to = nodes[pick("to", 0, nodes.size() - 1)];
  int via = PARAM("via", 0) ? nodes[pick("via", 0, nodes.size() - 1)] : -1;
  std::vector<int> got; bool ok;
  if (!areas) {
    auto& F = w.n[from].l; auto& T = w.n[to].l;
    if (from != to && via >= 0 && sym_bool("twice the same stop")) { auto p = g->shortestPathVia(F, {w.n[via].l, w.n[via].l}, T, useId, lc); ok = !!p; if (ok) got = idx(w, *p); }
    else { auto p = via >= 0 ? g->shortestPathVia(F, {w.n[via].l}, T, useId, lc) : g->shortestPath(F, T, useId, lc); ok = !!p; if (ok) got = idx(w, *p); }
  } else {
    auto F = w.n[from].any(), T = w.n[to].any();
    if (sym_bool("lanelets only") && !w.n[from].area && !w.n[to].area && (via < 0 || !w.n[via].area)) { areas = false; auto p = via >= 0 ? g->shortestPathVia(w.n[from].l, {w.n[via].l}, w.n[to].l, useId, lc) : g->shortestPath(w.n[from].l, w.n[to].l, useId, lc); ok = !!p; if (ok) got = idx(w, *p); }
    else { auto p = via >= 0 ? g->shortestPathIncludingAreasVia(F, {w.n[via].any()}, T, useId, lc) : g->shortestPathIncludingAreas(F, T, useId, lc); ok = !!p; if (ok) got = idx(w, *p); }
  }
  std::vector<std::pair<int, int>> legs; if (via >= 0) legs = {{from, via}, {via, to}}; else legs = {{from, to}};
  bool ex = true; std::vector<Paths> alt;
  for (auto& l : legs) { alt.push_back(paths(w, l.first, l.second, lc, areas, useId)); ex &= !alt.back().p.empty(); }
  if (!ex) REACH("unreachable");
  CHECK(ok == ex, "a path is returned exactly when the destination is reachable");
  if (!ok) return;
  if (got.size() > 3) REACH("long");
  CHECK(got.size() > 0 && got.front() == from && got.back() == to, "path runs from start to destination");
  for (size_t i = 0; i + 1 < got.size(); i++) {
    const Step* s = got[i] >= 0 && got[i + 1] >= 0 ? step(w, got[i], got[i + 1]) : nullptr;
    CHECK(s && usable(s->k, lc, areas) && s->cost[useId] < INF, "every step of the path is allowed");
  }
  double c = cost(w, got, useId);
  if (via >= 0) CHECK(std::find(got.begin(), got.end(), via) != got.end(), "path contains the intermediate stop");
  if (legs.size() == 1) { for (auto& p : alt[0].p) CHECK(c <= cost(w, p, useId), "no allowed path is cheaper"); if (alt[0].p.size() > 1) REACH("alternatives"); std::set<int> u(got.begin(), got.end()); CHECK(u.size() == got.size(), "no element twice"); }
  else for (auto& p : alt[0].p) for (auto& q : alt[1].p) CHECK(c <= cost(w, p, useId) + cost(w, q, useId), "no allowed path via the stop is cheaper");
}
