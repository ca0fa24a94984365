// C06: HybridMap (AttributeMap) vs std::map under every operation sequence, both access styles compared after every step
#include "h.h"
#include <lanelet2_core/Attribute.h>
namespace {
using Ref = std::map<std::string, std::string>;
const char* KEYS[] = {"type", "location", "dynamic", "color"};
const AttributeName ENUMS[] = {AttributeName::Type, AttributeName::Location, AttributeName::Dynamic, AttributeName::Type};
const int NK = 3;  // the last key is free-form and has no enum; KEYS[1] is left out of the quick pool
void same(AttributeMap& m, const Ref& r) {
  const AttributeMap& c = m;
  CHECK(m.size() == r.size() && m.empty() == r.empty(), "same number of entries");
  auto it = r.begin();
  for (auto& e : c) {
    CHECK(it != r.end() && e.first == it->first && e.second.value() == it->second, "same entries in the same order");
    ++it;
  }
  for (auto& e : AttributeNamesString::Map) {
    auto want = r.find(e.first);
    auto f = m.find(e.second);
    auto cf = c.find(e.second);
    if (want == r.end()) {
      CHECK(f == m.end(), "an absent entry is not found by well-known key");
      CHECK(cf == c.end(), "an absent entry is not found by well-known key (const)");
      CHECK(m.find(std::string(e.first)) == m.end(), "an absent entry is not found by name");
      bool thrown = false;
      try { c.at(e.second); } catch (std::out_of_range&) { thrown = true; }
      CHECK(thrown, "at() reports an absent entry");
    } else {
      CHECK(f != m.end() && cf != c.end(), "entry found by well-known key");
      CHECK(f == m.find(std::string(e.first)), "both access styles reach the same entry");
      CHECK(cf == c.find(std::string(e.first)), "both access styles reach the same entry (const)");
      CHECK(f->second.value() == want->second && cf->second.value() == want->second, "value by well-known key");
      CHECK(m.at(e.second).value() == want->second && c.at(e.first).value() == want->second, "value by at()");
    }
  }
  auto want = r.find("color");
  CHECK((m.find("color") != m.end()) == (want != r.end()), "free-form key");
}
}  // namespace
extern "C" void sym_harness() {
  const int LEN = PARAM("len", 3), K = PARAM("keys", 3);
  AttributeMap m, o;
  Ref rm, ro;
  int key[4] = {0, 2, 3, 1};
  // second map: operand of copies, moves and assignments
  int mask = LEN > 3 ? sym_int("other", 0, 3) : 3 * sym_int("other", 0, 1);
  if (mask & 1) { o["type"] = "ot"; ro["type"] = "ot"; }
  if (mask & 2) { o[AttributeName::Dynamic] = "od"; o["color"] = "oc"; ro["dynamic"] = "od"; ro["color"] = "oc"; }
  for (int s = 0; s < LEN; s++) {
    std::string v = "v" + std::to_string(s);
    int op = sym_int("op", 0, 14);
    auto k = [&] { return key[sym_int("key", 0, K - 1)]; };
    auto kw = [&] { return key[sym_int("key", 0, K - 2)]; };
    switch (op) {
      case 0: { int i = k(); auto res = m.insert({KEYS[i], v}); auto rr = rm.insert({KEYS[i], v}); CHECK(res.second == rr.second && res.first->first == KEYS[i] && res.first->second.value() == rr.first->second, "insert reports like a map"); break; }
      case 1: { int i = k(); auto h = m.find("color"); auto it = m.insert(h, {KEYS[i], v}); auto rr = rm.insert({KEYS[i], v}); CHECK(it->first == KEYS[i] && it->second.value() == rr.first->second, "insert with hint"); break; }
      case 2: { int i = k(); m[KEYS[i]] = v; rm[KEYS[i]] = v; break; }
      case 3: { int i = K < 4 ? key[sym_int("key", 0, 1)] : key[sym_int("key", 0, 2) == 2 ? 3 : 0]; m[ENUMS[i]] = v; rm[KEYS[i]] = v; break; }
      case 4: { int i = k(); CHECK(m.erase(KEYS[i]) == rm.erase(KEYS[i]), "erase reports like a map"); REACH("erase"); break; }
      case 5: { if (m.empty()) return; auto it = m.begin(); rm.erase(rm.begin()); auto n = m.erase(it); CHECK(rm.empty() ? n == m.end() : n == m.begin(), "erase returns the next entry"); break; }
      case 6: m = o; rm = ro; break;
      case 7: m = std::move(o); rm = ro; o = AttributeMap(); ro.clear(); REACH("move"); break;
      case 8: { AttributeMap c(m); CHECK(c == m, "copy is equal"); c["dynamic"] = "z"; c.erase("type"); same(m, rm); m["type"] = v; rm["type"] = v; Ref rc = rm; auto f = c.find(AttributeName::Type); CHECK(f == c.end(), "copies are independent"); break; }
      case 9: { AttributeMap c(std::move(m)); same(c, rm); m = std::move(c); break; }
      case 10: m.clear(); rm.clear(); break;
      case 11: o = m; ro = rm; break;
      case 12: { AttributeMap c{{"type", v}, {"color", v}, {"type", "second"}}; Ref rc{{"type", v}, {"color", v}}; same(c, rc); m = c; rm = rc; break; }
      case 13: std::swap(m, o); std::swap(rm, ro); break;
      case 14: { AttributeMap c(m.begin(), m.end()); same(c, rm); CHECK(c == m && !(c != m), "range copy is equal"); m = c; break; }
    }
    same(m, rm);
    same(o, ro);
    CHECK((m == o) == (rm == ro), "equality like a map");
  }
  if (m.size() == 3) REACH("three entries");
}
