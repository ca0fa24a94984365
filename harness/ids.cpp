// C02: id generator under every interleaving at atomic-operation granularity, registered ids are unconstrained 64-bit values
#include "h.h"
namespace {
struct Op { int kind; int64_t val; };
struct Ctx {
  int ops; Op op[4][3];
  int64_t got[16]; int ngot = 0;
  int64_t reg[16]; int nreg = 0;   // registrations that have completed
};
void body(int t, void* a) {
  auto& c = *static_cast<Ctx*>(a);
  for (int i = 0; i < c.ops; i++) {
    Op& o = c.op[t][i];
    if (o.kind == 0) {
      int before = c.nreg, gotBefore = c.ngot;
      int64_t v = utils::getId();
      CHECK(v != InvalId, "generated id is not the invalid id");
      for (int k = 0; k < before; k++) CHECK(v != c.reg[k], "generated id was registered as used before");
      for (int k = 0; k < c.ngot; k++) CHECK(v != c.got[k], "id handed out twice");
      if (before) REACH("generate after register");
      if (c.ngot > gotBefore) REACH("overlapping generate");
      c.got[c.ngot++] = v;
    } else {
      utils::registerId(o.val);
      c.reg[c.nreg++] = o.val;
    }
  }
}
}  // namespace
extern "C" void sym_harness() {
  Ctx c;
  const int T = PARAM("threads", 2), S = PARAM("switches", 6);
  const int64_t R = int64_t(1) << PARAM("idbits", 62);
  c.ops = PARAM("ops", 2);
  // threads are interchangeable: only one representative per multiset of operation patterns
  int pat = 0;
  for (int t = 0; t < T; t++) {
    pat = sym_int("pattern", pat, (1 << c.ops) - 1);
    for (int i = 0; i < c.ops; i++) c.op[t][i].kind = pat >> i & 1;
  }
  for (int t = 0; t < T; t++) for (int i = 0; i < c.ops; i++) {
    if (c.op[t][i].kind) c.op[t][i].val = sym_int("id", -R, R);
  }
  int64_t v0 = utils::getId();
  c.got[c.ngot++] = v0;
  sym_threads(T, body, &c, S);
  int64_t v1 = utils::getId();
  for (int k = 0; k < c.ngot; k++) CHECK(v1 != c.got[k], "id handed out twice");
  for (int k = 0; k < c.nreg; k++) CHECK(v1 != c.reg[k], "generated id was registered as used before");
}
