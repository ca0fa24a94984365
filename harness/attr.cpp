// C07: attribute value conversion and caching
#include "h.h"
#include <lanelet2_core/Attribute.h>
#include <lanelet2_core/utility/Units.h>
#include <cmath>
namespace {
using namespace units::literals;
// independent parser for integer texts: optional sign, digits, range-checked
bool parseInt(const std::string& s, long long lo, long long hi, long long& out) {
  size_t i = 0; bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  if (i == s.size()) return false;
  __int128 v = 0;
  for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
  if (neg) v = -v;
  if (v < lo || v > hi) return false;
  out = (long long)v;
  return true;
}
double kmh(const Velocity& v) { return units::KmHQuantity(v).value(); }
bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
template <typename T> void eqOpt(const Optional<T>& a, const Optional<T>& b, const char* m) { CHECK(!!a == !!b, m); if (a) CHECK(*a == *b, m); }
// all reads of `a` give what a never-read attribute with the same text gives
void consistent(const Attribute& a) {
  std::string t = a.value();
  eqOpt(a.asInt(), Attribute(t).asInt(), "int read reflects the current text");
  eqOpt(a.asId(), Attribute(t).asId(), "id read reflects the current text");
  eqOpt(a.asBool(), Attribute(t).asBool(), "bool read reflects the current text");
  auto d = a.asDouble(), d2 = Attribute(t).asDouble();
  CHECK(!!d == !!d2 && (!d || *d == *d2), "double read reflects the current text");
  auto v = a.asVelocity(), v2 = Attribute(t).asVelocity();
  CHECK(!!v == !!v2 && (!v || near(kmh(*v), kmh(*v2))), "velocity read reflects the current text");
  CHECK(*a.as<std::string>() == t && std::string(*a.as<const char*>()) == t, "text read");
}
const char* TEXTS[] = {"1", "true", "-7", "20 mps", "x", "", "0", "2.5"};
}  // namespace
extern "C" void sym_harness() {
  const int mode = PARAM("mode", 0);
  if (mode == 0) {  // integers
    int64_t R = PARAM("range", 1100);
    int64_t v = sym_int("v", -R, R);
    int kind = sym_int("kind", 0, 1);
    Attribute a = kind ? Attribute(int(v)) : Attribute(Id(v));
    Attribute b(a.value());
    for (Attribute* x : {&a, &b}) {
      if (sym_bool("int first")) { auto i = x->asInt(); CHECK(i && *i == v, "int reads back"); auto l = x->asId(); CHECK(l && *l == v, "id reads back"); }
      else { auto l = x->asId(); CHECK(l && *l == v, "id reads back"); auto i = x->asInt(); CHECK(i && *i == v, "int reads back"); }
    }
    Attribute c("zzz");
    CHECK(!c.asInt(), "no value");
    if (kind) c = int(v); else c = Id(v);
    CHECK(c.asInt() && *c.asInt() == v && c.asId() && *c.asId() == v, "assigned number reads back");
    if (v > 999) REACH("four digits");
  } else if (mode == 1) {  // texts
    static const char AL[] = "019+- .tx";
    int n = sym_int("len", 0, PARAM("chars", 3));
    std::string s;
    for (int i = 0; i < n; i++) s.push_back(char(sym_int("char", 32, 126)));
    int pad = sym_int("prefix", 0, 2);  // reach the numeric limits: long digit prefixes
    if (pad) { s = (pad == 1 ? "21474836" : "-922337203685477580") + s; }
    Attribute a(s);
    long long w;
    auto i = a.asInt();
    bool ok = parseInt(s, INT32_MIN, INT32_MAX, w);
    CHECK(!!i == ok, "int exactly when the text is an integer in range");
    if (i) { CHECK(*i == w, "int value"); REACH("int"); }
    auto l = Attribute(s).asId();
    ok = parseInt(s, INT64_MIN, INT64_MAX, w);
    CHECK(!!l == ok, "id exactly when the text is an integer in range");
    if (l) { CHECK(*l == w, "id value"); if (pad == 2) REACH("long id"); }
    auto b = Attribute(s).asBool();
    bool z = !pad && parseInt(s, 0, 1, w);
    if (z && s.size() == 1) CHECK(b && *b == (w == 1), "0/1 are booleans");
    if (!z) CHECK(!b || s == "yes" || s == "no", "other text is no boolean");
    if (b) REACH("bool");
  } else if (mode == 2) {  // histories
    int len = PARAM("len", 3);
    Attribute a("start"), b(5);
    for (int s = 0; s < len; s++) {
      switch (sym_int("op", 0, 6)) {
        case 0: a = Attribute(TEXTS[sym_int("text", 0, 7)]); break;
        case 1: a.setValue(TEXTS[sym_int("text", 0, 7)]); break;
        case 2: b = a; break;
        case 3: a = std::move(b); b = Attribute("moved"); break;
        case 4: { int r = sym_int("read", 0, 4); if (r == 0) a.asInt(); else if (r == 1) a.asBool(); else if (r == 2) a.asDouble(); else if (r == 3) a.asVelocity(); else a.asId(); REACH("read"); break; }
        case 5: { int r = sym_int("assign", 0, 4); if (r == 0) a = 7; else if (r == 1) a = true; else if (r == 2) a = 2.5; else if (r == 3) a = Attribute(10_kmh); else a = "no"; break; }
        case 6: { Attribute c(a); std::swap(a, b); CHECK(b == c && !(b != c), "equality"); break; }
      }
    }
    Attribute ca(a), cb(b);
    consistent(a); consistent(b); consistent(a); consistent(ca); consistent(cb);
  } else if (mode == 3) {  // doubles, booleans, velocities
    int kind = sym_int("kind", 0, 3);
    if (kind == 0) {
      double d = sym_grid("d", -200, 200, 6);
      Attribute a(d);
      if (sym_bool("velocity read")) { auto v = a.asVelocity(); CHECK(v && near(kmh(*v), d), "plain numbers are km/h"); }
      auto r = a.asDouble();
      CHECK(r && *r == d, "double reads back");
      auto r2 = Attribute(a.value()).asDouble();
      CHECK(r2 && *r2 == d, "double reads back from the text");
      REACH("double");
    } else if (kind == 1) {
      bool v = sym_bool("v");
      Attribute a(v);
      CHECK(a.asBool() && *a.asBool() == v && *Attribute(a.value()).asBool() == v, "bool reads back");
      CHECK(a.asInt() && *a.asInt() == (v ? 1 : 0) && a.asBool(), "bool as number");
      CHECK(*Attribute(v ? "true" : "false").asBool() == v && *Attribute(v ? "yes" : "no").asBool() == v, "bool words");
    } else {
      double d = sym_grid("velocity", 0, 160, 2);
      int u = sym_int("unit", 0, 6);
      static const char* UNITS[] = {"", " km/h", "km/h", " kmh", " mps", "m/s", " mph"};
      double want = u <= 3 ? d : u <= 5 ? d * 3.6 : d * 1.609344;
      if (kind == 2) {
        char buf[64]; int64_t q = (int64_t)(d * 4);
        std::string txt = std::to_string(sym_concrete(q / 4)) + (q % 4 == 0 ? (sym_bool("dot") ? "." : "") : q % 4 == 1 ? ".25" : q % 4 == 2 ? ".5" : ".75") + UNITS[u];
        Attribute a(txt);
        if (sym_bool("double read")) CHECK(!!a.asDouble() == (u == 0), "a velocity with unit is not a plain number");
        auto v = a.asVelocity();
        CHECK(v && std::fabs(kmh(*v) - want) < 1e-3 * (1 + want), "velocity with unit");
        auto v2 = a.asVelocity();
        CHECK(v2 && *v2 == *v, "second read");
        if (q == 90 && u == 0) {  // text around a unit
          static const char *PRE[] = {"", " ", "  ", "k", "c", "x ", " k", " per ", "/"}, *POST[] = {"", "x", "our", "2", " x", "/s"}, *UN[] = {"km/h", "kmh", "mps", "m/s", "mph", "m/h"};
          int pre = sym_int("before the unit", 0, 8), post = sym_int("behind the unit", 0, 5), un = sym_int("which unit", 0, 5);
          Attribute x(std::string("22") + PRE[pre] + UN[un] + POST[post]);
          auto y = x.asVelocity();
          bool good = (pre <= 2 || ((pre == 3 || pre == 6) && un == 5)) && post == 0;  // "k" + "m/h" is km/h
          CHECK(!!y == good, "a velocity exactly when the text behind the number is a unit");
          if (y) CHECK(near(kmh(*y), 22 * (un < 2 || pre == 3 || pre == 6 ? 1 : un < 4 ? 3.6 : 1.609344)), "velocity in its unit");
          REACH("text around the unit");
        }
        for (const char* bad : {" foo", " km", "s", "/h"}) CHECK(!Attribute(std::to_string(sym_concrete(q / 4)) + bad).asVelocity(), "unknown units are no velocity");
        REACH("velocity");
      } else {
        Velocity v = u <= 3 ? Velocity(d * units::KmH()) : u <= 5 ? Velocity(d * units::MPS()) : Velocity(d * units::MPH());
        Attribute a(v);
        CHECK(a.asVelocity() && near(kmh(*a.asVelocity()), want), "velocity reads back");
        auto t = Attribute(a.value()).asVelocity();
        CHECK(t && std::fabs(kmh(*t) - want) < 1e-5, "velocity reads back from the text");
      }
    }
  }
}
