#include "h.h"
#include <lanelet2_core/geometry/Point.h>
extern "C" void sym_harness() {
  const int N = PARAM("N", 3);
  const int R = PARAM("R", 4);
  LaneletMap map;
  std::vector<BasicPoint2d> p;
  for (int i = 0; i < N; i++) {
    double x = sym_grid("px", -R, R, 1), y = sym_grid("py", -R, R, 1);
    p.emplace_back(x, y);
    map.add(Point3d(100 + i, x, y, 0));
  }
  int mode = sym_int("mode", 0, 1);
  if (mode == 0) {
    double x1 = sym_grid("bx", -R, R, 1), y1 = sym_grid("by", -R, R, 1);
    double w = sym_grid("bw", 0, R, 1), h = sym_grid("bh", 0, R, 1);
    BoundingBox2d b(BasicPoint2d(x1, y1), BasicPoint2d(x1 + w, y1 + h));
    auto res = map.pointLayer.search(b);
    for (int i = 0; i < N; i++) {
      bool in = p[i].x() >= x1 && p[i].x() <= x1 + w && p[i].y() >= y1 && p[i].y() <= y1 + h;
      int cnt = 0;
      for (auto& r : res) if (r.id() == 100 + i) cnt++;
      CHECK(cnt == (in ? 1 : 0), "search returns exactly the points inside the box");
    }
    if (res.size() == N) REACH("all");
    if (res.empty()) REACH("none");
  } else {
    double qx = sym_grid("qx", -R, R, 1), qy = sym_grid("qy", -R, R, 1);
    auto res = map.pointLayer.nearest(BasicPoint2d(qx, qy), 2);
    CHECK(res.size() == (N < 2 ? N : 2), "nearest returns min(n,size)");
    REACH("nearest");
    auto d = [&](Id id) { auto& q = p[id - 100]; return (q.x() - qx) * (q.x() - qx) + (q.y() - qy) * (q.y() - qy); };
    CHECK(res[0].id() != res[1].id(), "distinct");
    for (int i = 0; i < N; i++) {
      bool in = false;
      for (auto& r : res) in |= r.id() == 100 + i;
      if (!in) for (auto& r : res) CHECK(d(r.id()) <= d(100 + i), "no closer element omitted");
    }
  }
}
