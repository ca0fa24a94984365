// G05: aligning the boundaries of a lane
#include "geo.h"
#include <lanelet2_core/geometry/LineString.h>
namespace {
using V = std::vector<IP>;
int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
LineString3d ls(const V& v, Id id) { Points3d p; for (size_t i = 0; i < v.size(); i++) p.emplace_back(id * 10 + i, double(v[i].x), double(v[i].y), double(v[i].z)); return LineString3d(id, p); }
IP rot(IP p, int k) { for (; k; k--) p = IP{-p.y, p.x, p.z}; return p; }
template <typename L> void run(const L& l, const L& r, bool li, bool ri) {   // l, r: aligned; li, ri: inverted before the call
  auto a = geometry::align(li ? l.invert() : l, ri ? r.invert() : r);
  CHECK(a.first == l && a.second == r && a.first.inverted() == l.inverted() && a.second.inverted() == r.inverted(), "both run in the same direction with the first on the left");
}
template <typename L> void keeps(const L& l, const L& r) {
  auto a = geometry::align(l, r);
  CHECK((a.first == l || a.first == l.invert()) && (a.second == r || a.second == r.invert()), "line strings are inverted at most");
  CHECK(a.first.size() == l.size() && a.second.size() == r.size() && a.first.id() == l.id() && a.second.id() == r.id(), "same line strings");
  if (l.size() < 2) CHECK(a.first == l, "degenerated line strings are kept");
  if (r.size() < 2) CHECK(a.second == r, "degenerated line strings are kept");
}
}  // namespace
extern "C" void sym_harness() {
  if (PARAM("mode", 0) == 0) {
    int n = PARAM("n", 3), H = PARAM("H", 3), len = 4;
    int nl = pick("points left", 2, n), nr = pick("points right", 2, n);
    V l, r;
    auto put = [&](V& v, int k, int lo, int hi, int z) { for (int i = 0; i < k; i++) { int x = i == 0 ? 0 : i + 1 == k ? len : (k == 3 ? pick("x", 1, 3) : i * len / (k - 1)); v.push_back({x, pick("height", lo, hi), z}); } };
    put(r, nr, 0, H, 0); put(l, nl, 1, H + 1, 1);   // bounds may lie at different heights
    // the left one is above the right one at every vertex of either
    auto above = [&](const V& a, IP q, int sign) { for (size_t i = 1; i < a.size(); i++) if (a[i - 1].x <= q.x && q.x <= a[i].x) { I c = cr(a[i - 1], a[i], q); if (c * sign <= 0) return false; } return true; };
    for (IP p : l) if (!above(r, p, 1)) return;
    for (IP p : r) if (!above(l, p, -1)) return;
    int k = PARAM("rot", -1) < 0 ? int((l[0].y + l.back().y * 2 + r.back().y + 4) % 4) : pick("rotation", 0, 3); bool li = pick("left inverted", 0, 1), ri = pick("right inverted", 0, 1);
    for (IP& p : l) p = rot(p, k);
    for (IP& p : r) p = rot(p, k);
    LineString3d L = ls(l, 1), R = ls(r, 2);
    run(L, R, li, ri); run(ConstLineString3d(L), ConstLineString3d(R), li, ri);
    run(utils::to2D(L), utils::to2D(R), li, ri); run(utils::to2D(ConstLineString3d(L)), utils::to2D(ConstLineString3d(R)), li, ri);
    REACH(li && ri ? "both inverted" : li || ri ? "one inverted" : "kept");
    return;
  }
  int nl = pick("points left", 0, 3), nr = pick("points right", 0, 3), R = PARAM("R", 1);
  V l, r;
  for (int i = 0; i < nl; i++) l.push_back(i == 0 ? IP{0, 0, 0} : IP{pick("x", 0, R), pick("y", -R, R), i});
  for (int i = 0; i < nr; i++) r.push_back({pick("x", -R, R), pick("y", 0, R), 0});
  LineString3d a = ls(l, 1), b = ls(r, 2);
  keeps(a, b); keeps(utils::to2D(a), utils::to2D(b));
  REACH(nl < 2 || nr < 2 ? "degenerate" : "kept");
}
