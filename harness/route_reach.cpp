// R02: reachable sets and path enumeration against the cheapest route over the allowed steps
#include "net.h"
using namespace net;
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0), K = PARAM("K", 6), what = PARAM("what", 0);
  Net w; bool areas = false;
  if (mode == 0) grid(w, PARAM("C", 3), PARAM("R", 2));
  else if (mode == 1) docGraph(w);
  else {
    areas = true;
    int a[5], b[5]; for (int i = 0; i < 5; i++) { a[i] = w.pt(10 * i, 10); b[i] = w.pt(10 * i, 0); }
    auto L = [&](std::vector<int> p) { return w.lines[w.line(p)]; };
    Line x1 = L({a[1], b[1]}), x2 = L({a[2], b[2]}), x3 = L({a[3], b[3]});
    w.lanelet(L({a[0], a[1]}), L({b[0], b[1]})); w.lanelet(L({a[3], a[4]}), L({b[3], b[4]}));
    w.area({x1.invert(), L({a[1], a[2]}), x2, L({b[2], b[1]})}); w.area({x2.invert(), L({a[2], a[3]}), x3, L({b[3], b[2]})});
    int m = w.pt(20, 14), k = w.pt(20, 12);
    w.lanelet(L({a[1], m}), L({b[1], k})); w.lanelet(L({m, a[3]}), L({k, b[3]}));
  }
  int nn = w.n.size(), perm = PARAM("perm", 0);
  if (perm & 1) for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (w.in(i) && w.in(j) && (w.leftOf(i, j) || w.leftOf(j, i))) w.change[{i, j}] = sym_bool("change");
  if (perm & 2) for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (i != j && w.in(i) && w.in(j) && w.follows(i, j)) w.pass[{i, j}] = sym_bool("step");
  int free = PARAM("free", 99);
  makeSteps(w, [&](const Step& s, int id) { if (id) return 1.; if (free-- <= 0) return 1.; double c = sym_grid("cost", PARAM("lo", 0), K, 1); return PARAM("inf", 0) && c == K / 2. ? INF : c; });
  Rules rules(w); std::shared_ptr<Cost> c0, c1;
  auto g = build(w, rules, c0, c1);
  bool lc = PARAM("lc", 2) == 2 ? sym_bool("lane changes") : PARAM("lc", 2);
  bool back = (what == 2 || !areas) && sym_bool("backwards");
  if (areas && what == 0) lc = true;
  std::vector<int> nodes; for (int i = 0; i < nn; i++) if (w.in(i)) nodes.push_back(i);
  int s = PARAM("from", -1) >= 0 ? PARAM("from", 0) : nodes[pick("start", 0, nodes.size() - 1)];
  auto arc = [&](int a, int b) { return back ? step(w, b, a) : step(w, a, b); };
  if (what == 0) {  // reachable set
    double lim = sym_grid("limit", 0, 3 * K, 1);
    std::vector<int> got;
    if (areas) got = idx(w, g->reachableSetIncludingAreas(w.n[s].any(), lim));
    else got = idx(w, back ? g->reachableSetTowards(w.n[s].l, lim, 0, lc) : g->reachableSet(w.n[s].l, lim, 0, lc));
    std::set<int> u(got.begin(), got.end());
    CHECK(u.size() == got.size(), "nothing is reachable twice");
    for (int i : nodes) {
      bool in = u.count(i), ex = i == s;
      auto ps = back ? paths(w, i, s, lc, areas, 0) : paths(w, s, i, lc, areas, 0);
      if (in && i != s) { REACH("inside"); bool any = false; for (auto& p : ps.p) any = any | (cost(w, p, 0) <= lim); CHECK(any, "reachable elements have a route within the limit"); }
      else if (!in) { if (!ps.p.empty()) REACH("too far"); for (auto& p : ps.p) CHECK(cost(w, p, 0) > lim, "elements with a route within the limit are reachable"); CHECK(!ex, "start is always reachable"); }
    }
    CHECK(u.count(-1) == 0, "only elements of the map");
    return;
  }
  // path enumeration and visitors: replay the definition - elements in order of cost, each by its cheapest route through elements that
  // did not reach the limit (equal costs leave the order open: such cases only get the checks that do not depend on it)
  PossiblePathsParams pp; pp.includeLaneChanges = lc;
  int lim = what == 1 ? pick("limits", 1, 3) : pick("limits", 0, 1) * 2;
  double cl = 0; unsigned el = 0;
  if (lim & 1) { cl = sym_grid("cost limit", 0, 2 * K, 1); pp.routingCostLimit = cl; }
  if (lim & 2) { el = pick("element limit", 1, 5); pp.elementLimit = el; }
  pp.includeShorterPaths = sym_bool("shorter");
  struct S { bool seen = false, done = false, pred = true, leaf = true; int prev = -1; double c = 0; unsigned len = 1; unsigned ch = 0; };
  std::vector<S> st(nn); st[s].seen = true; st[s].prev = s; bool tie = false; std::vector<int> order;
  auto pass = [&](int i) { bool r = true; if (lim & 1) r = st[i].c < cl; if (r && (lim & 2)) r = st[i].len < el; return r; };
  while (true) {
    int m = -1;
    for (int i = 0; i < nn; i++) if (st[i].seen && !st[i].done) { if (m < 0 || st[i].c < st[m].c) m = i; }
    if (m < 0) break;
    for (int i = 0; i < nn; i++) if (i != m && st[i].seen && !st[i].done && st[i].c == st[m].c) tie = true;
    S& x = st[m]; x.done = true; order.push_back(m); x.pred = pass(m); if (m != s) st[x.prev].leaf = false;
    if (!x.pred) continue;
    for (int j = 0; j < nn; j++) {
      auto a = arc(m, j); if (!a || !usable(a->k, lc, areas) || a->cost[0] == INF || st[j].done) continue;
      double c = x.c + a->cost[0];
      if (st[j].seen && c == st[j].c) tie = true;
      if (!st[j].seen || c < st[j].c) { st[j].seen = true; st[j].c = c; st[j].prev = m; st[j].len = x.len + 1; st[j].ch = x.ch + (a->k == LEFT || a->k == RIGHT); }
    }
  }
  if (what == 1) {
    std::vector<std::vector<int>> got;
    if (areas) { auto r = g->possiblePathsIncludingAreas(w.n[s].any(), pp); for (auto& p : r) got.push_back(idx(w, p)); }
    else { auto r = back ? g->possiblePathsTowards(w.n[s].l, pp) : g->possiblePaths(w.n[s].l, pp); for (auto& p : r) got.push_back(idx(w, p)); }
    if (back) for (auto& p : got) std::reverse(p.begin(), p.end());
    std::set<int> ends;
    for (auto& p : got) {
      CHECK(!p.empty() && p.front() == s, "every path begins at the start");
      double c = 0;
      for (size_t i = 0; i + 1 < p.size(); i++) {
        auto a = p[i] >= 0 && p[i + 1] >= 0 ? arc(p[i], p[i + 1]) : nullptr; CHECK(a && usable(a->k, lc, areas) && a->cost[0] < INF, "every step is allowed");
        if (lim & 1) CHECK(c < cl, "path ends where it reaches the cost limit"); c += a->cost[0];
      }
      if (lim & 2) CHECK(p.size() <= el, "element limit");
      if (!pp.includeShorterPaths) CHECK(((lim & 1) && !(c < cl)) || ((lim & 2) && p.size() == el), "paths reach a limit"); else if (p.size() > 1) REACH("shorter");
      CHECK(ends.insert(p.back()).second, "one path per end");
    }
    if (tie) { REACH("tie"); return; }
    if (got.size() > 1) REACH("several");
    size_t n = 0;
    for (int e = 0; e < nn; e++) {
      if (!st[e].done || !st[e].leaf || !(pp.includeShorterPaths || !st[e].pred)) continue;
      n++; std::vector<int> p; for (int i = e;; i = st[i].prev) { p.insert(p.begin(), i); if (i == s) break; }
      CHECK(std::find(got.begin(), got.end(), p) != got.end(), "every maximal cheapest path is listed");
    }
    CHECK(got.size() == n, "nothing else is listed");
  } else {
    std::vector<int> vis; std::vector<double> vc; std::vector<int> vp; std::vector<unsigned> vl, vn; 
    auto f = [&](int v, int p, double c, size_t len, size_t ch) { vis.push_back(v); vp.push_back(p); vc.push_back(c); vl.push_back(len); vn.push_back(ch); return !(lim & 2) || len < el; };
    auto fa = [&](const LaneletOrAreaVisitInformation& i) { return f(w.find(i.laneletOrArea), w.find(i.predecessor), i.cost, i.length, i.numLaneChanges); };
    auto fl = [&](const LaneletVisitInformation& i) { return f(w.find(i.lanelet), w.find(i.predecessor), i.cost, i.length, i.numLaneChanges); };
    if (areas) back ? g->forEachPredecessorIncludingAreas(w.n[s].any(), fa, lc) : g->forEachSuccessorIncludingAreas(w.n[s].any(), fa, lc);
    else back ? g->forEachPredecessor(w.n[s].l, fl, lc) : g->forEachSuccessor(w.n[s].l, fl, lc);
    CHECK(std::set<int>(vis.begin(), vis.end()).size() == vis.size() && !vis.empty() && vis[0] == s, "each element is visited once, beginning with the start");
    for (size_t i = 0; i + 1 < vis.size(); i++) CHECK(vc[i] <= vc[i + 1], "visits in order of cost");
    if (tie) { REACH("tie"); return; }
    CHECK(vis == order, "visited elements"); if (vis.size() > 3) REACH("several");
    for (size_t i = 0; i < vis.size(); i++) { auto& x = st[vis[i]]; CHECK(vc[i] == x.c && vp[i] == x.prev && vl[i] == x.len && vn[i] == x.ch, "cost, predecessor, length and lane changes of a visit"); }
  }
}
