// C11: reads of shared const objects from several threads; every interleaving (up to the switch bound) at each access to shared memory
#include "h.h"
#include <lanelet2_core/primitives/LaneletSequence.h>
// the lock around atomic operations on shared pointers: other threads cannot run inside it
namespace std {
_Sp_locker::_Sp_locker(const void*) noexcept { sym_nopreempt(1); }
_Sp_locker::_Sp_locker(const void*, const void*) noexcept { sym_nopreempt(1); }
_Sp_locker::~_Sp_locker() { sym_nopreempt(-1); }
}  // namespace std
extern "C" char __libc_single_threaded;
namespace {
struct Got { int k; double v; };
struct Ctx {
  int mode, ops;
  const Attribute* a;
  const ConstLanelet* ll;
  const LaneletSequence* seq;
  int op[3][3];
  double want[10];
};
double conv(const Attribute& a, int k) {
  switch (k) {
    case 0: { auto v = a.asInt(); return v ? *v : -1e6; }
    case 1: { auto v = a.asDouble(); return v ? *v : -1e6; }
    case 2: { auto v = a.asId(); return v ? double(*v) : -1e6; }
    case 3: { auto v = a.asBool(); return v ? *v : -1e6; }
    case 4: { auto v = a.asVelocity(); return v ? v->value() : -1e6; }
    case 5: { Attribute b(a); return b.asDouble().value_or(-1e6); }
    case 6: { Attribute b; b = a; return b.asVelocity() ? b.asVelocity()->value() : -1e6; }
    default: return a.value().size();
  }
}
template <typename L> double sum(const L& l) {
  double r = 100 * l.size();
  int i = 1;
  for (auto& p : l) r += i++ * (p.x() + 16 * p.y());
  return r;
}
double look(const ConstLanelet& l, int k) {
  switch (k) {
    case 0: return sum(l.centerline());
    case 1: return sum(l.invert().centerline());
    case 2: return l.hasCustomCenterline() + 2 * l.leftBound().size();
    case 3: return sum(l.centerline2d());
    case 4: { ConstLanelet c = l; return sum(c.centerline()) + sum(l.centerline()); }
    default: return sum(l.polygon3d());
  }
}
double look(const LaneletSequence& s, int k) {
  switch (k) {
    case 0: return sum(s.centerline());
    case 1: return sum(s.polygon3d());
    case 2: return sum(s.invert().centerline());
    case 3: return sum(s.lanelets().front().centerline());
    case 4: { LaneletSequence c = s; return sum(c.centerline2d()) + sum(c.polygon2d()); }
    default: return sum(s.leftBound());
  }
}
bool same(double a, double b) { return std::abs(a - b) < 1e-9; }  // the text of a typed value is rounded
double read(Ctx& c, int k) { return c.mode == 0 ? conv(*c.a, k) : c.mode == 1 ? look(*c.ll, k) : look(*c.seq, k); }
void body(int t, void* x) {
  auto& c = *static_cast<Ctx*>(x);
  for (int i = 0; i < c.ops; i++) {
    double v = read(c, c.op[t][i]);
    CHECK(same(v, c.want[c.op[t][i]]), "a concurrent reader gets the value a single reader gets");
  }
}
Attribute makeAttr(int k) {
  switch (k) {
    case 0: return Attribute("5");
    case 1: return Attribute(5);
    case 2: return Attribute(Velocity(3. * units::MPS()));
    case 3: return Attribute("36 km/h");
    case 4: return Attribute("yes");
    case 5: return Attribute(true);
    default: return Attribute(2.5);
  }
}
}  // namespace
extern "C" void sym_harness() {
  __libc_single_threaded = 0;
  Ctx c;
  c.mode = PARAM("mode", 0);
  c.ops = PARAM("ops", 1);
  const int T = PARAM("threads", 2), S = PARAM("switches", 3);
  const int K = c.mode == 0 ? 8 : 6;
  Attribute a;
  Point3d p1(1, 0, 0, 0), p2(2, 3, 0, 0), p3(3, 0, 1, 0), p4(4, 3, 1, 0), p5(5, 5, 0, 0), p6(6, 5, 2, 0);
  auto mk = [&] { return Lanelet(10, LineString3d(20, Points3d{p3, p4}), LineString3d(21, Points3d{p1, p2})); };
  auto mk2 = [&] { return Lanelet(11, LineString3d(22, Points3d{p4, p6}), LineString3d(23, Points3d{p2, p5})); };
  // what a single reader gets
  int kind = c.mode == 0 ? sym_int("attribute", 0, 6) : 0;
  for (int k = 0; k < K; k++) {
    if (c.mode == 0) c.want[k] = conv(makeAttr(kind), k);
    if (c.mode == 1) c.want[k] = look(mk(), k);
    if (c.mode == 2) c.want[k] = look(LaneletSequence(ConstLanelets{mk(), mk2()}), k);
  }
  int lo = 0;
  for (int t = 0; t < T; t++) for (int i = 0; i < c.ops; i++) {  // threads are interchangeable
    c.op[t][i] = sym_int("read", i == 0 ? lo : 0, K - 1);
    if (i == 0) lo = c.op[t][i];
  }
  a = makeAttr(kind);
  c.a = &a;
  ConstLanelet ll = mk(); c.ll = &ll;
  LaneletSequence seq(c.mode == 2 ? ConstLanelets{ll, mk2()} : ConstLanelets{}); c.seq = &seq;
  if (c.mode == 0) sym_shared(&a, sizeof a);
  if (c.mode != 0) sym_shared(const_cast<LaneletData*>(ll.constData().get()), sizeof(LaneletData));
  if (c.mode == 2) sym_shared(const_cast<LaneletSequenceData*>(seq.constData().get()), sizeof(LaneletSequenceData));
  sym_threads(T, body, &c, S);
  for (int k = 0; k < K; k++) CHECK(same(read(c, k), c.want[k]), "concurrent reads leave the value alone");
  REACH("read");
  if (c.op[0][0] != c.op[T - 1][0]) REACH("different reads");
}
