// P01: projectors against the geodesy library called directly (UTM) or closed formulas (the others)
#include "h.h"
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Projection.h>
#include <lanelet2_projection/Geocentric.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/Mercator.h>
#include <lanelet2_projection/UTM.h>
#include <GeographicLib/UTMUPS.hpp>
#include <cmath>
#include <memory>
namespace {
using GeographicLib::UTMUPS;
int pick(const char* n, int lo, int hi) { return (int)sym_concrete(sym_int(n, lo, hi)); }
int mixed = 0;   // quick tier: heights follow from the other choices
template <size_t N> double of(const char* n, const double (&v)[N]) { int i = pick(n, 0, int(N) - 1); mixed = mixed * 7 + i; return v[i]; }
template <size_t N> double height(const char* n, const double (&v)[N]) { return PARAM("all", 0) ? of(n, v) : v[unsigned(mixed) % N]; }
bool near(double a, double b, double eps) { return std::fabs(a - b) <= eps; }
const double D = std::acos(-1.) / 180.;
struct V3 { double x, y, z; bool ok; };
// --- oracle: earth centred coordinates of a point above the WGS84 ellipsoid
V3 ecef(const GPSPoint& g) {
  const double a = 6378137., f = 1 / 298.257223563, e2 = f * (2 - f);
  double s = std::sin(g.lat * D), c = std::cos(g.lat * D), n = a / std::sqrt(1 - e2 * s * s);
  return {(n + g.ele) * c * std::cos(g.lon * D), (n + g.ele) * c * std::sin(g.lon * D), (n * (1 - e2) + g.ele) * s, true};
}
V3 enu(const GPSPoint& o, const GPSPoint& g) {
  V3 p = ecef(o), q = ecef(g);
  double dx = q.x - p.x, dy = q.y - p.y, dz = q.z - p.z, sl = std::sin(o.lon * D), cl = std::cos(o.lon * D), sp = std::sin(o.lat * D), cp = std::cos(o.lat * D);
  return {-sl * dx + cl * dy, -sp * cl * dx - sp * sl * dy + cp * dz, cp * cl * dx + cp * sl * dy + sp * dz, true};
}
bool eq(const V3& a, const BasicPoint3d& b, double eps) { return near(a.x, b.x(), eps) && near(a.y, b.y(), eps) && near(a.z, b.z(), eps); }
double lonDiff(double a, double b) { double d = std::fmod(std::fabs(a - b), 360.); return d > 180 ? 360 - d : d; }
bool sameGps(const GPSPoint& a, const GPSPoint& b, double eps, double epsEle) { return near(a.lat, b.lat, eps) && (std::fabs(b.lat) > 89.99999 || lonDiff(a.lon, b.lon) <= eps) && near(a.ele, b.ele, epsEle); }
template <typename P> bool forward(const P& p, const GPSPoint& g, BasicPoint3d& out) {
  try { out = p.forward(g); return true; } catch (const ForwardProjectionError&) { return false; }
}
template <typename P> bool reverse(const P& p, const BasicPoint3d& x, GPSPoint& out) {
  try { out = p.reverse(x); return true; } catch (const ReverseProjectionError&) { return false; }
}
// --- UTM
struct Utm {   // what the projector must do, from the library's own functions with the zone given
  int zone; bool north; double x0 = 0, y0 = 0; bool strict;
  Utm(const GPSPoint& o, bool offset, bool strict) : zone(UTMUPS::StandardZone(o.lat, o.lon)), north(o.lat >= 0), strict(strict) {
    if (offset) { int z; bool n; UTMUPS::Forward(o.lat, o.lon, z, n, x0, y0); CHECK(z == zone && n == north, "oracle: zone of the origin"); }
  }
  bool own(const GPSPoint& g) const { return UTMUPS::StandardZone(g.lat, g.lon) == zone && (g.lat >= 0) == north; }
  V3 forward(const GPSPoint& g) const {
    if (std::fabs(g.lat) > 90) return {0, 0, 0, false};
    if (strict && !own(g)) return {0, 0, 0, false};
    try {
      int z, z1; bool n, n1; double x, y, lat, lon;
      UTMUPS::Forward(g.lat, g.lon, z1, n1, x, y);          // the point must be representable at all
      UTMUPS::Forward(g.lat, g.lon, z, n, x, y, zone);      // then in the zone of the origin
      if (n != north) y += north ? -UTMUPS::UTMShift() : UTMUPS::UTMShift();
      UTMUPS::Reverse(zone, north, x, y, lat, lon);         // limits of the hemisphere
      return {x - x0, y - y0, g.ele, true};
    } catch (const GeographicLib::GeographicErr&) { return {0, 0, 0, false}; }
  }
};
template <typename P, typename O> void checkUtm(const P& p, const O& o, const GPSPoint& g, bool strict) {
  V3 want = o.forward(g);
  BasicPoint3d got;
  bool ok = forward(p, g, got);
  CHECK(ok == want.ok, "representable points are projected, others rejected");
  if (!ok) { REACH("rejected"); return; }
  if (!o.own(g)) REACH("other zone");
  CHECK(eq(want, got, 1e-4) && got.z() == g.ele, "position in the zone of the origin");
  GPSPoint back;
  CHECK(reverse(p, got, back), "a projected point projects back");
  CHECK(sameGps(back, g, 1e-8, 0), "reverse inverts forward");
  (void)strict;
}
}  // namespace
extern "C" void sym_harness() {
  int mode = PARAM("mode", 0);
  const double eles[] = {0, 412.5, -30};
  if (mode == 0) {
    const double lats[] = {49.01, 0.02, -0.02, -33.5, 60.7, 75.2, 83.9, 88.};
    const double lons[] = {8.43, 5.99, 6.01, 179.97, -179.97, 0.02};
    GPSPoint o{of("origin latitude", lats), of("origin longitude", lons), 100};
    bool offset = pick("offset", 0, 1), strict = pick("throw in padding", 0, 1);
    const double dlat[] = {0, 0.05, -0.05, 1.5, -1.5, -12, 30, 120};
    const double dlon[] = {0, 0.06, -0.06, 1.7, -1.7, 4.5, -4.5, 9, 35, -35};
    GPSPoint g{o.lat + of("latitude", dlat), o.lon + of("longitude", dlon), height("height", eles)};
    if (g.lon > 180) g.lon -= 360;
    if (g.lon < -180) g.lon += 360;
    projection::UtmProjector p(Origin(o), offset, strict);
    Utm w(o, offset, strict);
    checkUtm(p, w, g, strict);
    GPSPoint o2 = o; o2.ele = 7;
    BasicPoint3d z = p.forward(o2);
    if (offset) CHECK(z.x() == 0 && z.y() == 0 && z.z() == 7, "the origin maps to the coordinate origin");
    CHECK(eq(w.forward(o2), z, 1e-4), "the origin after other points");
    return;
  }
  if (mode == 1) {   // local coordinates anywhere
    const double lats[] = {49.01, 0.02, -0.02, -33.5, 83.9};
    const double lons[] = {8.43, 5.99, 6.01, 179.97};
    GPSPoint o{of("origin latitude", lats), of("origin longitude", lons), 100};
    bool offset = pick("offset", 0, 1), strict = pick("throw in padding", 0, 1);
    const double xs[] = {0, 5000., -5000., 250000., -250000., 900000., -4e6}, ys[] = {0, 4000., -4000., 700000., -2.e6, 1.1e7, -1.1e7};
    projection::UtmProjector p(Origin(o), offset, strict);
    Utm w(o, offset, strict), plain(o, true, strict);
    BasicPoint3d x{of("x", xs), of("y", ys), height("height", eles)};
    if (!offset) { x.x() += plain.x0; x.y() += plain.y0; }
    GPSPoint want{0, 0, x.z()}, got;
    bool wok = true;
    try { UTMUPS::Reverse(w.zone, w.north, x.x() + w.x0, x.y() + w.y0, want.lat, want.lon); } catch (const GeographicLib::GeographicErr&) { wok = false; }
    if (wok && strict && !w.own(want)) { wok = false; REACH("outside of the zone"); }
    if (wok && strict) wok = w.forward(want).ok;
    bool ok = reverse(p, x, got);
    CHECK(ok == wok, "positions outside of the zone are rejected");
    if (!ok) { REACH("rejected"); return; }
    REACH("projected");
    CHECK(sameGps(got, want, 1e-9, 0), "position on the globe");
    BasicPoint3d again;
    if (w.forward(want).ok) CHECK(forward(p, got, again) && (again - x).norm() < 1e-3, "forward inverts reverse");
    return;
  }
  const double lats[] = {49.01, 0., -0.02, -33.5, 60.7, 89.6, -89.2, 12.};
  const double lons[] = {8.43, 0., -8.43, 179.97, -179.97, 91.};
  const double dlat[] = {0, 0.05, -0.05, 1.5, -1.5, -12, 30};
  const double dlon[] = {0, 0.06, -0.06, 1.7, -1.7, 35, -100};
  const double oele[] = {0, 250.25};
  GPSPoint o{of("origin latitude", lats), of("origin longitude", lons), height("origin height", oele)};
  GPSPoint g{o.lat + of("latitude", dlat), o.lon + of("longitude", dlon), height("height", eles)};
  if (g.lat > 90 || g.lat < -90) return;
  if (g.lon > 180) g.lon -= 360;
  if (g.lon < -180) g.lon += 360;
  BasicPoint3d x;
  GPSPoint back;
  if (mode == 2) {
    projection::GeocentricProjector p;
    CHECK(!p.origin().isDefault, "usable for writing");
    CHECK(forward(p, g, x) && eq(ecef(g), x, 1e-6), "earth centred position");
    CHECK(reverse(p, x, back) && sameGps(back, g, 1e-9, 1e-6), "reverse inverts forward");
    REACH("projected");
  }
  if (mode == 3) {
    projection::LocalCartesianProjector p{Origin(o)};
    projection::LocalCartesianProjector cp = p;
    CHECK(forward(p, g, x) && eq(enu(o, g), x, 1e-5), "east, north and up of the origin");
    CHECK(reverse(p, x, back) && sameGps(back, g, 1e-9, 1e-6), "reverse inverts forward");
    BasicPoint3d z, y;
    CHECK(forward(cp, o, z) && z.norm() < 1e-6, "the origin maps to the coordinate origin");
    CHECK(forward(cp, g, y) && y == x, "copies project alike");
    REACH("projected");
  }
  if (mode == 4) {
    projection::Mercator p{Origin(o)};
    const double R = 6378137., e = 0.081819190928906924;
    auto iso = [&](double lat) { double s = std::sin(std::max(-89.5, std::min(89.5, lat)) * D); return R * (std::atanh(s) - e * std::atanh(e * s)); };
    double ox = R * o.lon * D, oy = iso(o.lat);
    CHECK(forward(p, g, x) && near(x.x(), R * g.lon * D - ox, 1e-6) && near(x.y(), iso(g.lat) - oy, 1e-5) && x.z() == g.ele - o.ele, "elliptical mercator position");
    BasicPoint3d z;
    CHECK(forward(p, o, z) && z.norm() == 0, "the origin maps to the coordinate origin");
    bool clamped = std::fabs(g.lat) > 89.5;
    CHECK(reverse(p, x, back) && (clamped ? near(std::fabs(back.lat), 89.5, 1e-7) : sameGps(back, g, 1e-8, 1e-9)), "reverse inverts forward");
    REACH(clamped ? "clamped" : "projected");
  }
  if (mode == 5) {
    projection::SphericalMercatorProjector p{Origin(o)};
    DefaultProjector q = defaultProjection(Origin(o));
    const double R = 6378137., s = std::cos(o.lat * D);
    if (std::fabs(g.lat) > 89.9) return;
    CHECK(forward(p, g, x) && near(x.x(), s * R * g.lon * D, 1e-6) && near(x.y(), s * R * std::asinh(std::tan(g.lat * D)), 1e-5) && x.z() == g.ele, "spherical mercator position");
    BasicPoint3d y;
    CHECK(forward(q, g, y) && y == x, "the default projection is the spherical one");
    CHECK(reverse(p, x, back) && sameGps(back, g, 1e-8, 0), "reverse inverts forward");
    REACH("projected");
  }
}
