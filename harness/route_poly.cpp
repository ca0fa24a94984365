// R05: remaining lanes of paths and the polygon around a path of lanelets and areas
#include "net.h"
using namespace net;
namespace {
void remaining() {  // walks over two lanes of a ring: any mixture of following, lane changes and repeated lanelets
  static const int X[3] = {0, 10, 5}, Y[3] = {0, 0, 10}; int p[3][3]; Net w;
  for (int k = 0; k < 3; k++) for (int r = 0; r < 3; r++) p[r][k] = w.pt(5 + (X[k] - 5) * (r + 1), 3 + (Y[k] - 3) * (r + 1));
  Line b[3][3]; for (int r = 0; r < 3; r++) for (int k = 0; k < 3; k++) b[r][k] = w.lines[w.line({p[r][k], p[r][(k + 1) % 3]})];
  for (int r = 0; r < 2; r++) for (int k = 0; k < 3; k++) w.lanelet(b[r][k], b[r + 1][k]);
  bool back = sym_bool("against the lanes"); if (back) for (auto& n : w.n) n.pass = true;
  makeSteps(w, [](const Step&, int) { return 1.; });
  int n = pick("length", 1, PARAM("n", 5)); std::vector<int> s{back ? 1 : 0};
  while ((int)s.size() < n) { std::vector<int> c; for (auto& e : w.steps) if (e.from == s.back()) c.push_back(e.to); std::sort(c.begin(), c.end()); s.push_back(c[pick("next", 0, c.size() - 1)]); }
  ConstLanelets l; for (int i : s) l.push_back(w.n[i].l);
  LaneletPath path(l); bool ch = false;
  auto lane = [&](int i) { std::vector<int> r{s[i]}; while (i + 1 < (int)s.size() && w.follows(s[i], s[i + 1])) r.push_back(s[++i]); if (i + 1 < (int)s.size()) ch = true; return r; };
  const LaneletPath& cp = path;
  for (int i = 0; i < n; i++) {
    CHECK(idx(w, cp.getRemainingLane(cp.begin() + i)) == lane(i), "remaining lane from a position");
    CHECK(idx(w, cp.getRemainingLane(l[i])) == lane(std::find(s.begin(), s.end(), s[i]) - s.begin()), "remaining lane from a lanelet");
  }
  CHECK(cp.getRemainingLane(cp.end()).empty(), "nothing from the end"); for (size_t i = 0; i < w.n.size(); i++) if (std::find(s.begin(), s.end(), i) == s.end()) CHECK(cp.getRemainingLane(w.n[i].l).empty(), "nothing for lanelets outside the path");
  CHECK(cp.size() == s.size() && cp.empty() == s.empty() && cp.front() == l.front() && cp.back() == l.back() && cp == LaneletPath(l), "path elements");
  if (ch) REACH("lane change"); else REACH("one lane");
}
// cells of a square grid; side d of a cell: 0 north, 1 east, 2 south, 3 west; ring clockwise: north side heads east, ...
struct Cell { int x, y; int type; };  // type 0-3: lanelet heading north/east/south/west; 4, 5: area
const int DX[4] = {0, 1, 0, -1}, DY[4] = {1, 0, -1, 0};
void polygon() {
  int n = pick("length", PARAM("min", 1), PARAM("n", 3)); std::vector<Cell> c; std::vector<int> mv;
  for (int i = 0; i < n; i++) {
    if (!i) c.push_back({10, 10, 0}); else { int d = i == 1 ? 1 : (mv.back() + pick("turn", -1, 1) + 4) % 4; mv.push_back(d); c.push_back({c.back().x + DX[d], c.back().y + DY[d], 0}); }
    c.back().type = pick("type", 0, 5);
  }
  for (int i = 0; i < n; i++) for (int j = i + 2; j < n; j++) if (std::abs(c[i].x - c[j].x) + std::abs(c[i].y - c[j].y) < 2) return;
  for (int i = 0; i + 1 < n; i++) { int a = c[i].type, b = c[i + 1].type; if (a < 4 && b < 4 && a != b) return; }  // neighbouring lanelets head the same way
  int mid = pick("middle points", 0, 3); bool merge = sym_bool("merged borders");
  std::map<std::pair<int, int>, Point3d> pts; std::map<std::array<int, 3>, LineString3d> side; std::map<std::array<int, 3>, Point3d> mids;
  auto P = [&](int x, int y) { auto& q = pts[{x, y}]; if (!q.constData() || q.id() == 0) q = Point3d(100 * x + y, 2 * x, 2 * y, x + 2 * y); return q; };
  auto corner = [&](const Cell& k, int d) { static const int cx[4] = {0, 1, 1, 0}, cy[4] = {1, 1, 0, 0}; return P(k.x + cx[d], k.y + cy[d]); };  // first point of side d
  auto endSide = [&](const Cell& k, int d) { return k.type < 4 && (d - k.type + 4) % 2 == 0; };
  auto key = [&](const Cell& k, int d) { return d == 0 ? std::array<int, 3>{k.x, k.y + 1, 0} : d == 2 ? std::array<int, 3>{k.x, k.y, 0} : d == 1 ? std::array<int, 3>{k.x + 1, k.y, 1} : std::array<int, 3>{k.x, k.y, 1}; };
  std::set<std::array<int, 3>> straight; for (auto& k : c) for (int d = 0; d < 4; d++) if (endSide(k, d)) straight.insert(key(k, d));
  int cnt = 0;
  auto line = [&](const Cell& k, int d) {  // side d in clockwise direction, shared between the cells
    auto q = key(k, d); auto it = side.find(q);
    if (it == side.end()) {
      auto a = corner(k, d), b = corner(k, (d + 1) % 4); Points3d v{a}; bool m = !straight.count(q) && (mid == 1 || (mid > 1 && cnt % 2 == mid - 2)); cnt++;
      if (m) { v.emplace_back(5000 + cnt, (a.x() + b.x()) / 2 + .25, (a.y() + b.y()) / 2, a.z() + 7); REACH("middle"); } v.push_back(b);
      it = side.emplace(q, LineString3d(7000 + cnt, v)).first;
    }
    return it->second.front() == corner(k, d) ? it->second : it->second.invert();
  };
  auto pair = [&](int i, int j) { return j < 0 || j >= n ? -1 : [&] { for (int d = 0; d < 4; d++) if (c[i].x + DX[d] == c[j].x && c[i].y + DY[d] == c[j].y) return d; return -1; }(); };
  ConstLaneletOrAreas el; std::vector<std::vector<Id>> ring;   // ring without the side to the next element, starting behind it
  std::map<Id, BasicPoint3d> pos; auto ids = [&](const Cell& k, int d) { std::vector<Id> r; if (endSide(k, d)) r = {corner(k, d).id(), corner(k, (d + 1) % 4).id()}; else for (auto p : line(k, d)) r.push_back(p.id()); return r; };
  for (int i = 0; i < n; i++) {
    auto& k = c[i]; int in = pair(i, i - 1), out = pair(i, i + 1);
    if (k.type < 4) { el.push_back(Lanelet(300 + i, line(k, (k.type + 3) % 4), line(k, (k.type + 1) % 4).invert())); }
    else {
      LineStrings3d ls; int s0 = k.type == 4 ? 0 : 2;
      for (int j = 0; j < 4; j++) { int d = (s0 + j) % 4; bool free = d != in && d != out; auto l = line(k, d);
        if (merge && free && !ls.empty() && ls.back().id() >= 9000 ) { for (size_t q = 1; q < l.size(); q++) ls.back().push_back(l[q]); REACH("merged"); }
        else if (merge && free) { Points3d v(l.begin(), l.end()); ls.push_back(LineString3d(9000 + 10 * i + d, v)); } else ls.push_back(l); }
      el.push_back(Area(400 + i, ls));
    }
    for (int d = 0; d < 4; d++) { if (!endSide(k, d)) for (auto p : line(k, d)) pos[p.id()] = p.basicPoint(); pos[corner(k, d).id()] = corner(k, d).basicPoint(); }
  }
  // expected: walk round the union, leaving out the common sides of consecutive elements
  std::vector<Id> exp;
  auto add = [&](const Cell& k, int d) { auto r = ids(k, d); exp.insert(exp.end(), r.begin(), r.end() - 1); };
  std::function<void(int, int)> walk = [&](int i, int from) {  // all sides of cell i behind side `from` clockwise, entering neighbours where they are joined
    for (int j = 1; j < 4; j++) { int d = (from + j) % 4; if (d == pair(i, i + 1) && i + 1 < n) walk(i + 1, (d + 2) % 4); else add(c[i], d); }
  };
  { int i = 0, first = pair(0, 1); if (n == 1) for (int d = 0; d < 4; d++) add(c[0], d); else { (void)i; for (int j = 1; j < 4; j++) add(c[0], (first + j) % 4); walk(1, (first + 2) % 4); } }
  auto poly = getEnclosingPolygon3d(LaneletOrAreaPath(el));
  if (n == 1) { CHECK(poly == el[0].boundingPolygon().basicPolygon(), "a single element is enclosed by its own polygon"); while (poly.size() > 1 && poly.front() == poly.back()) poly.pop_back(); }
  std::vector<Id> got; for (auto& q : poly) { Id id = 0; for (auto& e : pos) if (e.second == q) id = e.first; CHECK(id != 0, "every point of the polygon is a point of an element"); got.push_back(id); }
  if (getenv("DBG")) { for (auto i : got) printf("%ld ", (long)i); printf("/ "); for (auto i : exp) printf("%ld ", (long)i); puts(""); }
  CHECK(got.size() == exp.size(), "every border point occurs once");
  auto it = std::find(got.begin(), got.end(), exp[0]); CHECK(it != got.end(), "border points"); std::rotate(got.begin(), it, got.end());
  CHECK(got == exp, "the polygon follows the outer borders clockwise");
  bool lane = false, area = false; for (auto& k : c) (k.type < 4 ? lane : area) = true; if (lane && area) REACH("mixed"); if (n > 2) REACH("long");
}
}  // namespace
extern "C" void sym_harness() { if (PARAM("mode", 0) == 0) remaining(); else polygon(); }
