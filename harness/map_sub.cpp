// C10: submaps and factories
#include "world.h"
template <typename T> std::vector<T> some(std::vector<T> v, const char* n) {
  int m = sym_int(n, 0, (1 << v.size()) - 1);
  std::vector<T> r;
  for (size_t i = 0; i < v.size(); i++) if (m >> i & 1) r.push_back(v[i]);
  return r;
}
static void usage(World& w, LaneletMapLayers& m, const bool* in) {
  // indices of a factory-built map agree with its content
  BoundingBox2d all(BasicPoint2d(-9, -9), BasicPoint2d(9, 9));
  CHECK(m.pointLayer.search(all).size() == m.pointLayer.size(), "points indexed once");
  CHECK(m.lineStringLayer.search(all).size() == m.lineStringLayer.size(), "line strings indexed once");
  CHECK(m.polygonLayer.search(all).size() == m.polygonLayer.size(), "polygons indexed once");
  CHECK(m.laneletLayer.search(all).size() == m.laneletLayer.size(), "lanelets indexed once");
  CHECK(m.areaLayer.search(all).size() == m.areaLayer.size(), "areas indexed once");
  for (int k : {LA, LB}) if (in[k]) {
    auto u = m.laneletLayer.findUsages(w.ll[k - LA].leftBound());
    int n = 0;
    for (auto& x : u) n += x.id() == w.id(k);
    CHECK(n == 1, "lanelet found once by its left bound");
  }
}
extern "C" void sym_harness() {
  const int mode = PARAM("mode", 0), seq = PARAM("seq", 2);
  World w;
  Id g0 = utils::getId();
  Id preset[NN];
  for (int k = 0; k < NN; k++) preset[k] = 1 + k;
  int hi = mode != 0 ? sym_int("high", 0, 1) : 0;  // ids ahead of the generator
  if (hi) for (int k = 0; k < NN; k++) preset[k] = g0 + 1 + k;
  if (mode == 0 && sym_bool("noid")) for (int k : {P0, L1, PG, LB, AR, R1}) preset[k] = InvalId;
  makeWorld(w, preset, 2 + (mode == 2), PARAM("small", 1));
  bool own[NN] = {}, in[NN] = {};
  auto touch = [&](int k) { own[k] = true; w.closure(k, in); };
  if (mode == 0) {  // submap, element by element (also repeatedly)
    static const int pool[] = {LA, LB, AR, R0, R1, L1, PG, P0};
    LaneletSubmap s;
    for (int i = 0; i < seq; i++) {
      int k = pool[sym_int("add", 0, i ? 7 : 4)];
      if (k == P0 && own[P0]) REACH("re-add");
      w.addTo(s, k);
      touch(k);
      CHECK(w.id(k) != InvalId, "added elements get an id");
    }
    compare(w, s, own);
    usage(w, s, own);
    LaneletMapConstPtr c;
    LaneletMapPtr m;
    // the const conversion cannot assign ids through shared const data differently, so both must agree
    if (sym_bool("const")) { c = const_cast<const LaneletSubmap&>(s).laneletMap(); m = std::const_pointer_cast<LaneletMap>(c); }
    else m = s.laneletMap();
    bool noid = false;
    for (int k = 0; k < NN; k++) noid |= in[k] && w.id(k) == InvalId;
    if (!noid && preset[P0] != InvalId) {
      compare(w, *m, in);
      usage(w, *m, in);
      REACH("converted");
    }
    if (own[LA] && own[R0]) REACH("mixed");
  } else {
    LaneletMapUPtr m;
    LaneletSubmapUPtr s;
    bool sub = sym_bool("sub");
    int kind = mode == 1 ? 0 : sym_int("kind", 1, 3);
    if (kind == 0) {
      int mask = sym_int("elements", 0, 7);
      Lanelets ll; Areas ar;
      for (int i = 0; i < 2; i++) if (mask >> i & 1) { ll.push_back(w.ll[i]); touch(LA + i); }
      if (mask & 4) { ar.push_back(w.ar); touch(AR); }
      if (sub) s = ar.empty() ? utils::createSubmap(ll) : ll.empty() ? utils::createSubmap(ar) : utils::createSubmap(ll, ar);
      else m = ar.empty() ? utils::createMap(ll) : ll.empty() ? utils::createMap(ar) : utils::createMap(ll, ar);
    } else if (kind == 1) {
      Points3d v; for (int i = 0; i < 4; i++) if (sym_bool("p")) { v.push_back(w.p[i]); touch(P0 + i); }
      if (sub) s = utils::createSubmap(v); else m = utils::createMap(v);
    } else if (kind == 2) {
      LineStrings3d v; for (int i = 0; i < 4; i++) if (sym_bool("l")) { v.push_back(sym_bool("inv") ? w.l[i].invert() : w.l[i]); touch(L0 + i); }
      if (sub) s = utils::createSubmap(v); else m = utils::createMap(v);
    } else {
      Polygons3d v; if (sym_bool("g")) { v.push_back(w.pg); touch(PG); }
      if (sub) s = utils::createSubmap(v); else m = utils::createMap(v);
    }
    LaneletMapLayers& x = sub ? static_cast<LaneletMapLayers&>(*s) : static_cast<LaneletMapLayers&>(*m);
    compare(w, x, sub ? own : in);
    usage(w, x, sub ? own : in);
    Id fresh[] = {x.pointLayer.uniqueId(), x.lineStringLayer.uniqueId(), utils::getId()};
    for (Id f : fresh) for (int k = 0; k < NN; k++) if ((sub ? own : in)[k]) CHECK(f != w.id(k), "a fresh id is not used by any element of the map");
    if (sub) REACH("sub"); else REACH("full");
    if (sub && kind == 0) { auto f = s->laneletMap(); compare(w, *f, in); usage(w, *f, in); }
  }
}
