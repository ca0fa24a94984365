// C01: LaneletMap::add closes the map under ownership/reference; ids; re-adding. Oracle: independent closure over an explicit reference graph.
#include "world.h"
extern "C" void sym_harness() {
  const int mode = PARAM("mode", 0), seq = PARAM("seq", 2);
  World w;
  Id far = 0;  // base of preset ids that the generator has not reached
  const Id g0 = utils::getId();
  Id preset[NN];
  for (int k = 0; k < NN; k++) preset[k] = 1 + k;
  if (mode == 0) {  // ids: some elements without id, P1 / L1 with an id the generator has yet to reach
    for (int k : {P0, P2, L0, PG}) if (sym_bool("noid")) preset[k] = InvalId;
    int hi = sym_int("high", 0, 4);
    if (hi) preset[P1] = g0 + hi;
  } else {
    int which = sym_int("noid_mask", 0, 4);
    if (which == 4) { which = 0; far = g0 + 64; int i = 0; for (int k : {LA, LB, AR, R0, R1, CL, PG, L0, L1, L2, P0, P1, P2, P3}) preset[k] = far + (isP(k) || isL(k) ? -k : ++i); }
    if (which & 1) preset[LA] = preset[R0] = preset[P0] = InvalId;
    if (which & 2) preset[LB] = preset[AR] = preset[R1] = preset[L1] = InvalId;
  }
  makeWorld(w, preset, mode);
  static const int pool0[] = {P1, L0, L1, PG, P2}, pool1[] = {LA, LB, AR, CL}, pool2[] = {LA, LB, AR, R0, R1};
  LaneletMap m;
  bool in[NN] = {};
  std::vector<int> added;
  for (int s = 0; s < seq; s++) {
    int c = mode == 0 ? pool0[sym_int("add", 0, 4)] : mode == 1 ? pool1[sym_int("add", 0, 3)] : pool2[sym_int("add", 0, 4)];
    // known finding: a preset id that the generator reaches within the same add call, before that element is registered
    bool inNow[NN] = {};
    w.closure(c, inNow);
    Id next = utils::getId();
    int fresh = 0; bool clash = false;
    for (int k = 0; k < NN; k++) if (inNow[k] && !in[k] && w.id(k) == InvalId) fresh++;
    for (int k = 0; k < NN; k++) if (!in[k] && w.id(k) > next && w.id(k) <= next + fresh) { clash = inNow[k]; if (!clash) return; break; }  // an id the map has never seen: out of scope
    if (clash && fresh) { sym_note("same-call-id-clash"); return; }
    std::vector<Id> before;
    for (int k = 0; k < NN; k++) before.push_back(w.id(k));
    w.addTo(m, c);
    added.push_back(c);
    w.closure(c, in);
    for (int k = 0; k < NN; k++) {
      if (before[k] != InvalId) { CHECK(w.id(k) == before[k], "ids that were set are kept"); continue; }
      if (!in[k]) { CHECK(w.id(k) == InvalId, "elements that are not added get no id"); continue; }
      REACH("fresh id");
      CHECK(w.id(k) > next, "fresh id was not handed out before");
      for (int o = 0; o < NN; o++) if (o != k) CHECK(w.id(o) != w.id(k), "fresh id is not used by another element");
    }
    compare(w, m, in);
  }
  auto sp = ids(m.pointLayer), sl = ids(m.lineStringLayer), sll = ids(m.laneletLayer), sr = ids(m.regulatoryElementLayer);
  Id n1 = utils::getId();
  for (int k = 0; k < NN; k++) if (in[k]) CHECK(w.id(k) != n1, "generated id differs from every id in the map");
  if (far) for (int i = 0; i < 90; i++) { n1 = utils::getId(); for (int k = 0; k < NN; k++) if (in[k]) CHECK(w.id(k) != n1, "generated ids differ from every id in the map"); }
  CHECK(m.laneletLayer.uniqueId() > n1, "uniqueId is new");
  for (int c : added) w.addTo(m, c);
  compare(w, m, in);
  CHECK(sp == ids(m.pointLayer) && sl == ids(m.lineStringLayer) && sll == ids(m.laneletLayer) && sr == ids(m.regulatoryElementLayer), "re-adding changes no id");
  // spatial index and usage lookup were not fed twice
  CHECK(m.pointLayer.search(BoundingBox2d(BasicPoint2d(-9, -9), BasicPoint2d(9, 9))).size() == m.pointLayer.size(), "points indexed once");
  CHECK(m.lineStringLayer.search(BoundingBox2d(BasicPoint2d(-9, -9), BasicPoint2d(9, 9))).size() == m.lineStringLayer.size(), "line strings indexed once");
  CHECK(m.laneletLayer.search(BoundingBox2d(BasicPoint2d(-9, -9), BasicPoint2d(9, 9))).size() == m.laneletLayer.size(), "lanelets indexed once");
  if (in[LA] && in[LB] && in[AR]) REACH("all areas");
  if (in[R0] && in[R1]) REACH("both rules");
  if (!m.pointLayer.exists(InvalId) && in[P0]) REACH("points");
  CHECK(!m.pointLayer.exists(InvalId) && !m.laneletLayer.exists(InvalId), "the invalid id never exists");
  bool thrown = false;
  try { m.lineStringLayer.get(999999); } catch (NoSuchPrimitiveError&) { thrown = true; }
  CHECK(thrown, "unknown ids are reported");
}
