// exact oracles over small integer coordinates (independent of the library's geometry)
#pragma once
#include "h.h"
#include <algorithm>
#include <cmath>
namespace {
using I = int64_t;
struct IP { I x, y, z = 0; };
inline IP operator-(IP a, IP b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline I dot(IP a, IP b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline I cr(IP a, IP b) { return a.x * b.y - a.y * b.x; }
inline I cr(IP o, IP a, IP b) { return cr(a - o, b - o); }
inline bool same(IP a, IP b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
inline int sgn(I v) { return (v > 0) - (v < 0); }
struct Q { I n, d; };  // n/d, d>0
inline bool lt(Q a, Q b) { return a.n * b.d < b.n * a.d; }
inline bool eq(Q a, Q b) { return a.n * b.d == b.n * a.d; }
inline double val(Q a) { return double(a.n) / double(a.d); }
// squared distance from q to segment ab and the foot parameter t (as a rational)
struct Foot { Q d2; Q t; };
inline Foot footOn(IP a, IP b, IP q) {
  IP d = b - a, w = q - a;
  I L = dot(d, d), t = dot(w, d);
  if (L == 0 || t <= 0) return {{dot(w, w), 1}, {0, 1}};
  if (t >= L) return {{dot(q - b, q - b), 1}, {1, 1}};
  return {{dot(w, w) * L - t * t, L}, {t, L}};
}
inline bool near(double a, double b, double eps = 1e-9) { return std::fabs(a - b) <= eps; }
inline IP ipt(const char* nx, const char* ny, int R) { I x = sym_int(nx, -R, R); I y = sym_int(ny, -R, R); return {x, y, 0}; }
inline bool onSeg(IP a, IP b, IP q) { return cr(a, b, q) == 0 && dot(q - a, q - b) <= 0; }
inline bool segX(IP a, IP b, IP c, IP d) {  // closed segments share a point
  int o1 = sgn(cr(a, b, c)), o2 = sgn(cr(a, b, d)), o3 = sgn(cr(c, d, a)), o4 = sgn(cr(c, d, b));
  if (o1 * o2 < 0 && o3 * o4 < 0) return true;
  return onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b);
}
inline Q segD2(IP a, IP b, IP c, IP d) {
  if (segX(a, b, c, d)) return {0, 1};
  Q m = footOn(a, b, c).d2;
  for (Q o : {footOn(a, b, d).d2, footOn(c, d, a).d2, footOn(c, d, b).d2}) if (lt(o, m)) m = o;
  return m;
}
using Ring = std::vector<IP>;
inline I area2(const Ring& r) { I s = 0; for (size_t i = 0; i < r.size(); i++) s += cr(r[i], r[(i + 1) % r.size()]); return s; }
inline bool onRing(const Ring& r, IP q) { for (size_t i = 0; i < r.size(); i++) if (onSeg(r[i], r[(i + 1) % r.size()], q)) return true; return false; }
inline bool strictlyIn(const Ring& r, IP q) {  // crossing number
  if (onRing(r, q)) return false;
  bool in = false;
  for (size_t i = 0; i < r.size(); i++) {
    IP a = r[i], b = r[(i + 1) % r.size()];
    if ((a.y > q.y) != (b.y > q.y)) { I c = cr(a, b, q); if ((b.y > a.y) == (c > 0)) in = !in; }
  }
  return in;
}
inline bool simple(const Ring& r) {
  size_t n = r.size();
  if (n < 3) return false;
  for (size_t i = 0; i < n; i++) {
    if (same(r[i], r[(i + 1) % n])) return false;
    if (onSeg(r[(i + 1) % n], r[(i + 2) % n], r[i]) || onSeg(r[i], r[(i + 1) % n], r[(i + 2) % n])) return false;  // spike
    for (size_t j = i + 2; j < n; j++) if (!(i == 0 && j == n - 1) && segX(r[i], r[i + 1], r[j], r[(j + 1) % n])) return false;
  }
  return true;
}
}  // namespace
