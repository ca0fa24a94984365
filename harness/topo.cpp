// G03: neighbour predicates against the identity of shared lines and points
#include "h.h"
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
namespace {
struct Ln { LineString3d l; std::vector<int> p; bool inv = false; int id = 0;
  int front() const { return inv ? p.back() : p.front(); } int back() const { return inv ? p.front() : p.back(); }
  Ln invert() const { Ln r = *this; r.inv = !inv; r.l = l.invert(); return r; }
  bool operator==(const Ln& o) const { return id == o.id && inv == o.inv; } };
std::vector<Point3d> pool;
Ln mk(int id, std::vector<int> p) { Points3d q; for (int i : p) q.push_back(pool[i]); Ln r; r.l = LineString3d(100 + id, q); r.p = p; r.id = id; return r; }
struct Ll { Ln l, r; Lanelet o; Ll invert() const { return {r.invert(), l.invert(), o.invert()}; } };
int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
bool left(const Ll& a, const Ll& b) { return a.r == b.l; }
bool ends(const Ln& l, int f, int b) { return l.front() == f && l.back() == b; }
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0);
  pool.clear();
  for (int i = 0; i < 6; i++) pool.emplace_back(i + 1, double(i), double((i * i) % 5), 0.);
  if (mode == 0) {
    std::vector<Ln> ln{mk(0, {0, 1}), mk(1, {2, 3})};
    int n3 = pick("points of the last line", 0, 2);
    int a = pick("f2", 0, 4), b = pick("b2", 0, 4);
    ln.push_back(a == b ? mk(2, {a}) : mk(2, {a, b}));
    if (n3 == 2) { int c = pick("f3", 0, 4), d = pick("b3", 0, 4); if (c == d) return; ln.push_back(mk(3, {c, 5, d})); }
    else if (n3 == 1) ln.push_back(mk(3, {pick("f3", 0, 4)}));
    else ln.push_back(mk(3, {}));
    Ll A{ln[0], ln[1], Lanelet(10, ln[0].l, ln[1].l)};
    int bl = pick("left of b", 0, 3), br = pick("right of b", 0, 3);
    Ln x = ln[bl], y = ln[br];
    if (sym_bool("left inverted")) x = x.invert();
    if (sym_bool("right inverted")) y = y.invert();
    Ll B{x, y, Lanelet(11, x.l, y.l)};
    for (int k = 0; k < 8; k++) {
      Ll p = k & 1 ? A.invert() : A, q = k & 2 ? B.invert() : B;
      if (k & 4) std::swap(p, q);
      ConstLanelet P = p.o, Q = q.o;
      bool lo = left(p, q);
      if (lo) REACH("left");
      CHECK(geometry::leftOf(P, Q) == lo && geometry::rightOf(Q, P) == lo, "left / right of");
      CHECK(geometry::leftOf(p.o, q.o) == lo && geometry::rightOf(Q.invert(), P.invert()) == left(q, p), "left / right of, mutable and inverted views");
      bool empty = p.l.p.empty() || p.r.p.empty() || q.l.p.empty() || q.r.p.empty();
      bool fo = !empty && p.l.back() == q.l.front() && p.r.back() == q.r.front();
      if (fo) REACH("follows"); if (empty) REACH("empty");
      CHECK(geometry::follows(P, Q) == fo, "follows");
      CHECK(geometry::follows(Q.invert(), P.invert()) == fo, "follows the other way round");
      for (bool inv : {false, true}) {
        auto c = geometry::determineCommonLine(P, Q, inv);
        bool ex = left(q, p) || left(p, q) || (inv && (left(q.invert(), p) || left(p, q.invert())));
        CHECK(!!c == ex, "common line exists");
        if (c) {
          bool isL = *c == P.leftBound(), isR = *c == P.rightBound();
          CHECK(isL || isR, "common line belongs to the first lanelet");
          CHECK((isL && (left(q, p) || (inv && left(q.invert(), p)))) || (isR && (left(p, q) || (inv && left(p, q.invert())))), "common line belongs to both");
          if (!left(q, p) && !left(p, q)) REACH("inverted common line");
        }
      }
    }
  } else if (mode == 1) {  // lanelet and area
    int nb = pick("area lines", 2, 3);
    bool viaInv = sym_bool("one line stored reversed");
    std::vector<Ln> o;
    if (nb == 3) o = {mk(0, {0, 1}), viaInv ? mk(1, {2, 4, 1}).invert() : mk(1, {1, 4, 2}), mk(2, {2, 0})};
    else o = {mk(0, {0, 1, 4, 2}), viaInv ? mk(1, {0, 2}).invert() : mk(1, {2, 0})};
    LineStrings3d ob; for (auto& x : o) ob.push_back(x.l);
    Area ar(20, ob);
    std::vector<Ln> cand = o;
    int form = pick("own lines", 0, 2);  // 0: both area lines, 1: left own, 2: right own; 3 below
    auto own = [&](int id, const char* a, const char* b) { return mk(id, {pick(a, 0, 3), 5, pick(b, 0, 3)}); };
    auto ofArea = [&](const char* n, const char* i) { Ln r = o[pick(n, 0, nb - 1)]; return sym_bool(i) ? r.invert() : r; };
    Ln l = form == 0 || form == 2 ? ofArea("left line", "left inverted") : own(5, "lf", "lb");
    Ln r = form == 0 ? ofArea("right line", "right inverted") : form == 1 && sym_bool("right of area") ? ofArea("right line", "right inverted") : own(6, "rf", "rb");
    Ll L0{l, r, Lanelet(10, l.l, r.l)};
    for (int k = 0; k < 2; k++) {
      Ll q = k ? L0.invert() : L0; ConstLanelet Q = q.o; ConstArea A = ar;
      bool lf = false, rg = false, fo = false, foAny = false, pr = false, prAny = false;
      for (auto& x : o) {
        lf |= x.invert() == q.l; rg |= x == q.r;
        bool f1 = ends(x, q.r.back(), q.l.back()), f2 = ends(x, q.l.back(), q.r.back()); fo |= f1; foAny |= f1 || f2;
        bool p1 = ends(x, q.l.front(), q.r.front()), p2 = ends(x, q.r.front(), q.l.front()); pr |= p1; prAny |= p1 || p2;
      }
      if (lf) REACH("area left"); if (fo) REACH("area ahead"); if (pr) REACH("area behind");
      auto inAr = [&](const Optional<ConstLineString3d>& c) { bool f = false; for (auto& x : o) f |= ConstLineString3d(x.l) == *c; return f; };
      CHECK(geometry::leftOf(Q, A) == lf, "area left of lanelet"); CHECK(geometry::rightOf(Q, A) == rg, "area right of lanelet");
      bool f = geometry::follows(Q, A), p = geometry::follows(A, Q);
      CHECK((!fo || f) && (foAny || !f), "area follows lanelet"); CHECK((!pr || p) && (prAny || !p), "lanelet follows area");
      auto cl = geometry::determineCommonLineLeft(Q, A), cr = geometry::determineCommonLineRight(Q, A);
      CHECK(!!cl == lf && (!cl || *cl == Q.leftBound()), "common line on the left"); CHECK(!!cr == rg && (!cr || *cr == Q.rightBound()), "common line on the right");
      auto cs = geometry::determineCommonLineSideways(Q, A), cs2 = geometry::determineCommonLineSideways(A, Q);
      CHECK(!!cs == (lf || rg) && (!cs || (*cs == Q.leftBound() && lf) || (*cs == Q.rightBound() && rg)), "common line sideways in the lanelet");
      CHECK(!!cs2 == (lf || rg) && (!cs2 || (inAr(cs2) && ((cs2->invert() == Q.leftBound() && lf) || (*cs2 == Q.rightBound() && rg)))), "common line sideways in the area");
      auto cp = geometry::determineCommonLinePreceding(Q, A), cf = geometry::determineCommonLineFollowing(A, Q), cfp = geometry::determineCommonLineFollowingOrPreceding(A, Q), ca = geometry::determineCommonLine(A, Q);
      auto isEnd = [&](const ConstLineString3d& c) { return c.front().id() == q.r.back() + 1 && c.back().id() == q.l.back() + 1; };
      auto isStart = [&](const ConstLineString3d& c) { return c.front().id() == q.l.front() + 1 && c.back().id() == q.r.front() + 1; };
      CHECK(!!cp == fo && (!cp || (inAr(cp) && isEnd(*cp))), "common line at the end of the lanelet");
      CHECK(!!cf == pr && (!cf || inAr(cf)) && (!cf || isStart(*cf)), "common line at the start of the lanelet");
      CHECK(!!cfp == (fo || pr) && (!cfp || (inAr(cfp) && (isEnd(*cfp) || isStart(*cfp)))), "common line at either end");
      CHECK(!!ca == (fo || pr || lf || rg) && (!ca || inAr(ca)), "any common line");
    }
  } else {  // two areas
    std::vector<Ln> a{mk(0, {0, 1}), mk(1, {1, 5, 2}), mk(2, {2, 0})};
    bool viaInv = sym_bool("one line stored reversed"); if (viaInv) a[1] = mk(1, {2, 5, 1}).invert();
    int q[3]; for (int i = 0; i < 3; i++) q[i] = pick("corner", 0, 4);
    if (q[0] == q[1] || q[1] == q[2] || q[0] == q[2]) return;
    std::vector<Ln> b;
    for (int i = 0; i < 3; i++) {
      int s = q[i], e = q[(i + 1) % 3]; bool done = false;
      if (sym_bool("share line")) {
        for (auto& x : a) { if (ends(x, e, s)) { b.push_back(x.invert()); done = true; break; } if (ends(x, s, e)) { b.push_back(x); done = true; break; } }
        if (!done) return;
      } else b.push_back(mk(10 + i, {s, e}));
    }
    LineStrings3d oa, ob; for (auto& x : a) oa.push_back(x.l); for (auto& x : b) ob.push_back(x.l);
    int inner = sym_bool("first area has a hole with the same line");
    Area A(20, oa), B(21, ob);
    if (inner) A.setInnerBounds({LineStrings3d{b[0].l.invert(), mk(30, {q[1], 3, q[0]}).l}});
    auto segs = [&](std::vector<Ln>& v) { std::vector<std::pair<int, int>> r; for (auto& x : v) { std::vector<int> p = x.p; if (x.inv) std::reverse(p.begin(), p.end()); for (size_t i = 0; i + 1 < p.size(); i++) r.push_back({p[i], p[i + 1]}); } return r; };
    auto sa = segs(a), sb = segs(b);
    bool adj = false; for (auto& x : sa) for (auto& y : sb) adj |= x.first == y.second && x.second == y.first;
    if (adj) REACH("adjacent");
    CHECK(geometry::adjacent(A, B) == adj && geometry::adjacent(B, A) == adj, "areas are adjacent when they share a border segment");
    bool com = false; for (auto& x : a) for (auto& y : b) com |= x == y.invert();
    auto c = geometry::determineCommonLine(A, B), d = geometry::determineCommonLine(B, A);
    CHECK(!!c == com && !!d == com, "common line of two areas");
    if (com) { REACH("common line"); bool f = false, g = false; for (auto& x : a) { f |= ConstLineString3d(x.l) == *c; g |= ConstLineString3d(x.l.invert()) == *d; } for (auto& y : b) f &= true; CHECK(f && g, "common line is a line of the first area, inverted in the second"); bool h = false; for (auto& y : b) h |= ConstLineString3d(y.l.invert()) == *c; CHECK(h, "inverted common line is part of the second area"); }
  }
}
