#include <dlfcn.h>
// Runtime of the symbolic execution engine: shadow memory, expression DAG, Z3 queries, path explorer.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <z3.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <malloc.h>
#include <string>
#include <unordered_map>
#include <vector>

#define API extern "C" __attribute__((visibility("default")))
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

// ------------------------------------------------------------------------------------------------ expressions
enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_SHLC, K_ABS,               // mathematical integers (never overflow)
  K_BVADD, K_BVSUB, K_BVMUL, K_BVSHL, K_BVLSHR, K_BVUDIV, K_BVUREM,  // wrap-around at imm bits, result signed
  K_AND, K_OR, K_XOR, K_ASHR, K_SDIV, K_SREM, K_ZEXT, K_TRUNC, K_BYTE, K_ITE, K_B2I, K_POPC,
  // booleans
  K_EQ, K_SLT, K_SLE, K_ULT, K_ULE, K_NOT, K_BAND, K_BOR, K_BXOR, K_TABP,
  // doubles
  K_FIX, K_SQRT, K_TAB
};
struct Expr;
struct Table {
  std::vector<Expr *> atoms;  // INT expressions
  std::vector<i128> lo;       // range start per atom
  std::vector<int> n;         // range size per atom
  std::vector<double> v;      // row major (atom 0 slowest)
};
struct PTable {
  std::vector<Expr *> atoms;
  std::vector<i128> lo;
  std::vector<int> n;
  std::vector<char> v;
};
struct Expr {
  Kind k;
  uint8_t cls;  // 0 INT, 1 BOOL, 2 FP
  uint16_t w;   // z3 width (INT)
  int imm;
  uint32_t id;
  Expr *a, *b, *c;
  i128 lo, hi, cv;  // INT range and current concrete value; BOOL cv
  double fv;        // FP current concrete value
  Z3_ast ast;
  Table *tab;
  PTable *ptab;
};

API Expr *__sym_args[64];
API Expr *__sym_ret[16];
API void *__sym_callee;
API void *__sym_ret_from;
Expr *__sym_args[64];
Expr *__sym_ret[16];
void *__sym_callee;
void *__sym_ret_from;

namespace {
constexpr long LIM = 1 << 16;
bool g_active = false;    // inside a symbolic run
bool g_replay = false;    // concrete replay
Z3_context Z;
Z3_solver SOL;
std::vector<Expr *> g_vars;
struct VarInfo { std::string name; i64 lo, hi; int g; bool fp; };
std::vector<VarInfo> g_varinfo;
std::vector<i64> g_model;
uint32_t g_nextid = 1;

struct Stats {
  u64 paths, events, queries, sat, unsat, unknown, assumeFail, splits, splitValues, checks, checkQueriesUnsat, stale, tabs, leaks, diverged,
      maxEvents, maxVars, concFlips, refined, second;
  double solver;
};
Stats st;
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

int nwidth(i128 lo, i128 hi) {
  int w = 1;
  while (w < 126 && (lo < -((i128)1 << (w - 1)) || hi > ((i128)1 << (w - 1)) - 1)) w++;
  return w;
}
struct Key {
  Kind k; int imm; Expr *a, *b, *c; i128 v;
  bool operator==(const Key &o) const { return k == o.k && imm == o.imm && a == o.a && b == o.b && c == o.c && v == o.v; }
};
struct KeyH {
  size_t operator()(const Key &k) const {
    u64 h = k.k * 1099511628211ull ^ (u64)k.imm * 0x9E3779B97F4A7C15ull;
    h ^= (u64)k.a * 0xff51afd7ed558ccdull;
    h = (h << 7) | (h >> 57);
    h ^= (u64)k.b * 0xc4ceb9fe1a85ec53ull;
    h = (h << 9) | (h >> 55);
    h ^= (u64)k.c * 0x2545F4914F6CDD1Dull ^ (u64)k.v ^ (u64)(k.v >> 64);
    return h ^ (h >> 29);
  }
};
std::unordered_map<Key, Expr *, KeyH> g_cons;
std::unordered_map<Expr *, bool> g_decided;       // branch conditions already decided on this path
std::unordered_map<Expr *, i128> g_constof;       // int expressions split to one value on this path

Z3_sort bvsort(int w) { return Z3_mk_bv_sort(Z, w); }
Z3_ast bvconst(i128 v, int w) {
  // two's complement numeral
  char buf[64];
  bool neg = v < 0;
  unsigned __int128 u = neg ? (unsigned __int128)(-(v)) : (unsigned __int128)v;
  char tmp[50];
  int n = 0;
  do { tmp[n++] = '0' + (int)(u % 10); u /= 10; } while (u);
  int p = 0;
  if (neg) buf[p++] = '-';
  while (n) buf[p++] = tmp[--n];
  buf[p] = 0;
  return Z3_mk_numeral(Z, buf, bvsort(w));
}
Z3_ast asW(Expr *e, int W) {
  if (e->k == K_CONST) return bvconst(e->cv, W);
  if (e->w == W) return e->ast;
  if (e->w < W) return Z3_mk_sign_ext(Z, W - e->w, e->ast);
  return Z3_mk_extract(Z, W - 1, 0, e->ast);
}
Expr *alloc() {
  static char *cur = nullptr, *end = nullptr;
  if (cur + sizeof(Expr) > end) {
    cur = (char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    end = cur + (1 << 20);
  }
  Expr *e = (Expr *)cur;
  cur += (sizeof(Expr) + 15) & ~15ul;
  return e;
}
[[noreturn]] void fatal(const char *fmt, ...);
i128 sx(i128 v, int bits) {
  if (bits >= 127) return v;
  unsigned __int128 m = (((unsigned __int128)1) << bits) - 1;
  unsigned __int128 u = (unsigned __int128)v & m;
  if (u >> (bits - 1)) return (i128)u - ((i128)1 << bits);
  return (i128)u;
}
i128 zx(i128 v, int bits) {
  if (bits >= 127) return v;
  return (i128)((unsigned __int128)v & ((((unsigned __int128)1) << bits) - 1));
}
// concrete semantics of every INT/BOOL node
i128 evalOp(Kind k, int imm, i128 a, i128 b, i128 c) {
  switch (k) {
    case K_ADD: return a + b;
    case K_SUB: return a - b;
    case K_MUL: return a * b;
    case K_SHLC: return a * ((i128)1 << imm);
    case K_ABS: return a < 0 ? -a : a;
    case K_BVADD: return sx(a + b, imm);
    case K_BVSUB: return sx(a - b, imm);
    case K_BVMUL: return sx((i128)((unsigned __int128)a * (unsigned __int128)b), imm);
    case K_BVSHL: return zx(b, imm) >= imm ? 0 : sx((i128)((unsigned __int128)a << (int)zx(b, imm)), imm);
    case K_BVLSHR: return zx(b, imm) >= imm ? 0 : sx(zx(a, imm) >> (int)zx(b, imm), imm);
    case K_BVUDIV: return zx(b, imm) == 0 ? -1 : sx(zx(a, imm) / zx(b, imm), imm);
    case K_BVUREM: return zx(b, imm) == 0 ? a : sx(zx(a, imm) % zx(b, imm), imm);
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_ASHR: return a >> imm;
    case K_SDIV: return b == 0 ? 0 : a / b;
    case K_SREM: return b == 0 ? 0 : a % b;
    case K_ZEXT: return zx(a, imm);
    case K_TRUNC: return sx(a, imm);
    case K_BYTE: return (a >> (8 * imm)) & 255;
    case K_ITE: return a ? b : c;
    case K_B2I: return a;
    case K_POPC: return __builtin_popcountll((u64)zx(a, imm));
    case K_EQ: return a == b;
    case K_SLT: return a < b;
    case K_SLE: return a <= b;
    case K_ULT: return zx(a, imm) < zx(b, imm);
    case K_ULE: return zx(a, imm) <= zx(b, imm);
    case K_NOT: return !a;
    case K_BAND: return a && b;
    case K_BOR: return a || b;
    case K_BXOR: return (a != 0) != (b != 0);
    default: fatal("evalOp kind %d", k);
  }
}
Expr *mkConst(i128 v) {
  Key key{K_CONST, 0, 0, 0, 0, v};
  auto it = g_cons.find(key);
  if (it != g_cons.end()) return it->second;
  Expr *e = alloc();
  e->k = K_CONST; e->cls = 0; e->lo = e->hi = e->cv = v; e->w = nwidth(v, v); e->id = g_nextid++;
  e->ast = nullptr;
  g_cons[key] = e;
  return e;
}
Expr *mkBoolConst(bool v) { return mkConst(v); }
bool isC(Expr *e) { return e->k == K_CONST; }

Z3_ast buildAst(Kind k, int imm, Expr *a, Expr *b, Expr *c, int w) {
  auto W2 = [&](int W) { return W; };
  (void)W2;
  switch (k) {
    case K_ADD: return Z3_mk_bvadd(Z, asW(a, w), asW(b, w));
    case K_SUB: return Z3_mk_bvsub(Z, asW(a, w), asW(b, w));
    case K_MUL: return Z3_mk_bvmul(Z, asW(a, w), asW(b, w));
    case K_SHLC: return Z3_mk_bvshl(Z, asW(a, w), bvconst(imm, w));
    case K_ABS: {
      int W = std::max<int>(w, a->w + 1);
      Z3_ast x = asW(a, W);
      Z3_ast r = Z3_mk_ite(Z, Z3_mk_bvslt(Z, x, bvconst(0, W)), Z3_mk_bvneg(Z, x), x);
      return W == w ? r : Z3_mk_extract(Z, w - 1, 0, r);
    }
    case K_BVADD: case K_BVSUB: case K_BVMUL: case K_BVSHL: case K_BVLSHR: case K_BVUDIV: case K_BVUREM: {
      Z3_ast x = asW(a, imm), y = asW(b, imm), r;
      switch (k) {
        case K_BVADD: r = Z3_mk_bvadd(Z, x, y); break;
        case K_BVSUB: r = Z3_mk_bvsub(Z, x, y); break;
        case K_BVMUL: r = Z3_mk_bvmul(Z, x, y); break;
        case K_BVSHL: r = Z3_mk_bvshl(Z, x, y); break;
        case K_BVLSHR: r = Z3_mk_bvlshr(Z, x, y); break;
        case K_BVUDIV: r = Z3_mk_bvudiv(Z, x, y); break;
        default: r = Z3_mk_bvurem(Z, x, y); break;
      }
      if (w < imm) r = Z3_mk_extract(Z, w - 1, 0, r);
      else if (w > imm) r = Z3_mk_sign_ext(Z, w - imm, r);
      return r;
    }
    case K_AND: case K_OR: case K_XOR: {
      int W = std::max<int>(std::max(a->w, b->w), w);
      Z3_ast r = k == K_AND ? Z3_mk_bvand(Z, asW(a, W), asW(b, W)) : k == K_OR ? Z3_mk_bvor(Z, asW(a, W), asW(b, W)) : Z3_mk_bvxor(Z, asW(a, W), asW(b, W));
      return W == w ? r : Z3_mk_extract(Z, w - 1, 0, r);
    }
    case K_ASHR: {
      int W = std::max<int>(a->w, w);
      int s = std::min(imm, W - 1);
      Z3_ast r = Z3_mk_bvashr(Z, asW(a, W), bvconst(s, W));
      return W == w ? r : Z3_mk_extract(Z, w - 1, 0, r);
    }
    case K_SDIV: case K_SREM: {
      int W = std::max<int>(std::max(a->w, b->w) + 1, w);
      Z3_ast r = k == K_SDIV ? Z3_mk_bvsdiv(Z, asW(a, W), asW(b, W)) : Z3_mk_bvsrem(Z, asW(a, W), asW(b, W));
      return W == w ? r : Z3_mk_extract(Z, w - 1, 0, r);
    }
    case K_ZEXT: {
      Z3_ast r = Z3_mk_zero_ext(Z, 1, asW(a, imm));
      int W = imm + 1;
      return w < W ? Z3_mk_extract(Z, w - 1, 0, r) : w > W ? Z3_mk_sign_ext(Z, w - W, r) : r;
    }
    case K_TRUNC: {
      Z3_ast r = asW(a, imm);
      return w < imm ? Z3_mk_extract(Z, w - 1, 0, r) : w > imm ? Z3_mk_sign_ext(Z, w - imm, r) : r;
    }
    case K_BYTE: {
      int W = 8 * (imm + 1);
      Z3_ast r = Z3_mk_extract(Z, 8 * imm + 7, 8 * imm, asW(a, std::max<int>(W, a->w)));
      return w <= 8 ? (w == 8 ? r : Z3_mk_extract(Z, w - 1, 0, r)) : Z3_mk_zero_ext(Z, w - 8, r);
    }
    case K_ITE: return Z3_mk_ite(Z, a->ast, asW(b, w), asW(c, w));
    case K_B2I: return Z3_mk_ite(Z, a->ast, bvconst(1, w), bvconst(0, w));
    case K_POPC: {
      int W = 8;
      Z3_ast x = asW(a, imm), r = bvconst(0, W);
      for (int i = 0; i < imm; i++) r = Z3_mk_bvadd(Z, r, Z3_mk_zero_ext(Z, W - 1, Z3_mk_extract(Z, i, i, x)));
      return w == W ? r : w < W ? Z3_mk_extract(Z, w - 1, 0, r) : Z3_mk_sign_ext(Z, w - W, r);
    }
    case K_EQ: { int W = std::max(a->w, b->w); return Z3_mk_eq(Z, asW(a, W), asW(b, W)); }
    case K_SLT: { int W = std::max(a->w, b->w); return Z3_mk_bvslt(Z, asW(a, W), asW(b, W)); }
    case K_SLE: { int W = std::max(a->w, b->w); return Z3_mk_bvsle(Z, asW(a, W), asW(b, W)); }
    case K_ULT: return Z3_mk_bvult(Z, asW(a, imm), asW(b, imm));
    case K_ULE: return Z3_mk_bvule(Z, asW(a, imm), asW(b, imm));
    case K_NOT: return Z3_mk_not(Z, a->ast);
    case K_BAND: { Z3_ast x[2] = {a->ast, b->ast}; return Z3_mk_and(Z, 2, x); }
    case K_BOR: { Z3_ast x[2] = {a->ast, b->ast}; return Z3_mk_or(Z, 2, x); }
    case K_BXOR: return Z3_mk_xor(Z, a->ast, b->ast);
    default: fatal("buildAst kind %d", k);
  }
}
// non-linear products are abstracted by a fresh constant; its definition joins a query only when the abstraction is satisfiable
void assertz(Z3_ast a);
i128 smin(int b); i128 smax(int b);
Z3_ast mulVar(Expr *e) {
  char nm[32];
  snprintf(nm, sizeof nm, "m%u", e->id);
  Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bvsort(e->w));
  if (e->lo != smin(e->w)) assertz(Z3_mk_bvsge(Z, v, bvconst(e->lo, e->w)));
  if (e->hi != smax(e->w)) assertz(Z3_mk_bvsle(Z, v, bvconst(e->hi, e->w)));
  return v;
}
// INT node; folds constants by range
Expr *mk(Kind k, int imm, Expr *a, Expr *b, Expr *c, i128 lo, i128 hi) {
  if (lo == hi) return mkConst(lo);
  Key key{k, imm, a, b, c, 0};
  auto it = g_cons.find(key);
  if (it != g_cons.end()) return it->second;
  Expr *e = alloc();
  e->k = k; e->cls = 0; e->imm = imm; e->a = a; e->b = b; e->c = c; e->lo = lo; e->hi = hi;
  e->w = nwidth(lo, hi);
  e->id = g_nextid++;
  e->cv = evalOp(k, imm, a->cv, b ? b->cv : 0, c ? c->cv : 0);
  e->ast = k == K_MUL && !isC(a) && !isC(b) ? mulVar(e) : buildAst(k, imm, a, b, c, e->w);
  if (e->cv < lo || e->cv > hi) fatal("internal: range violated kind %d", k);
  g_cons[key] = e;
  return e;
}
Expr *mkB(Kind k, int imm, Expr *a, Expr *b) {
  Key key{k, imm, a, b, nullptr, 1};
  auto it = g_cons.find(key);
  if (it != g_cons.end()) return it->second;
  Expr *e = alloc();
  e->k = k; e->cls = 1; e->imm = imm; e->a = a; e->b = b; e->lo = 0; e->hi = 1;
  e->id = g_nextid++;
  e->cv = evalOp(k, imm, a->cv, b ? b->cv : 0, 0);
  e->ast = buildAst(k, imm, a, b, nullptr, 1);
  g_cons[key] = e;
  return e;
}
i128 curLo(Expr *e) { auto it = g_constof.find(e); return it == g_constof.end() ? e->lo : it->second; }
i128 curHi(Expr *e) { auto it = g_constof.find(e); return it == g_constof.end() ? e->hi : it->second; }
Expr *fold(Expr *e) {  // replace by constant if split on this path
  if (!e || isC(e) || e->cls != 0) return e;
  auto it = g_constof.find(e);
  return it == g_constof.end() ? e : mkConst(it->second);
}
// ---- integer constructors
Expr *iAdd(Expr *a, Expr *b) {
  if (isC(a) && a->cv == 0) return b;
  if (isC(b) && b->cv == 0) return a;
  if (isC(a) && isC(b)) return mkConst(a->cv + b->cv);
  if (isC(a)) std::swap(a, b);
  if (isC(b) && a->k == K_ADD && isC(a->b)) return iAdd(a->a, mkConst(a->b->cv + b->cv));
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return mk(K_ADD, 0, a, b, nullptr, a->lo + b->lo, a->hi + b->hi);
}
Expr *iSub(Expr *a, Expr *b) {
  if (isC(b)) return iAdd(a, mkConst(-b->cv));
  if (a == b) return mkConst(0);
  return mk(K_SUB, 0, a, b, nullptr, a->lo - b->hi, a->hi - b->lo);
}
Expr *iMul(Expr *a, Expr *b) {
  if (isC(a) && isC(b)) return mkConst(a->cv * b->cv);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (b->cv == 0) return b;
    if (b->cv == 1) return a;
  } else if (a->id > b->id) std::swap(a, b);
  i128 p[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi};
  i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
  if (a == b) {
    if (a->k == K_SUB && a->a->id > a->b->id) return iMul(iSub(a->b, a->a), iSub(a->b, a->a));  // (x-y)^2 = (y-x)^2
    lo = (a->lo <= 0 && a->hi >= 0) ? 0 : std::min(p[0], p[3]);
  }
  return mk(K_MUL, 0, a, b, nullptr, lo, hi);
}
Expr *iShlc(Expr *a, int s) {
  if (s == 0) return a;
  if (isC(a)) return mkConst(a->cv * ((i128)1 << s));
  return mk(K_SHLC, s, a, nullptr, nullptr, a->lo * ((i128)1 << s), a->hi * ((i128)1 << s));
}
Expr *iAbs(Expr *a) {
  if (a->lo >= 0) return a;
  if (a->hi <= 0) return iSub(mkConst(0), a);
  return mk(K_ABS, 0, a, nullptr, nullptr, 0, std::max(-a->lo, a->hi));
}
Expr *iAshr(Expr *a, int s) {
  if (s == 0) return a;
  return mk(K_ASHR, s, a, nullptr, nullptr, a->lo >> s, a->hi >> s);
}
Expr *bNot(Expr *a) {
  if (isC(a)) return mkBoolConst(!a->cv);
  if (a->k == K_NOT) return a->a;
  return mkB(K_NOT, 0, a, nullptr);
}
Expr *bAnd(Expr *a, Expr *b) {
  if (isC(a)) return a->cv ? b : a;
  if (isC(b)) return b->cv ? a : b;
  if (a == b) return a;
  return mkB(K_BAND, 0, a, b);
}
Expr *bOr(Expr *a, Expr *b) {
  if (isC(a)) return a->cv ? a : b;
  if (isC(b)) return b->cv ? b : a;
  if (a == b) return a;
  return mkB(K_BOR, 0, a, b);
}
Expr *bXor(Expr *a, Expr *b) {
  if (isC(a)) return a->cv ? bNot(b) : b;
  if (isC(b)) return b->cv ? bNot(a) : a;
  if (a == b) return mkBoolConst(false);
  return mkB(K_BXOR, 0, a, b);
}
Expr *b2i(Expr *b) {
  if (isC(b)) return mkConst(b->cv);
  return mk(K_B2I, 0, b, nullptr, nullptr, 0, 1);
}
Expr *iIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->cv ? a : b;
  if (a == b) return a;
  if (isC(a) && isC(b) && a->cv == 1 && b->cv == 0) return b2i(c);
  return mk(K_ITE, 0, c, a, b, std::min(a->lo, b->lo), std::max(a->hi, b->hi));
}
Expr *bIte(Expr *c, Expr *a, Expr *b) { return bOr(bAnd(c, a), bAnd(bNot(c), b)); }
Expr *iEq(Expr *a, Expr *b) {
  if (a == b) return mkBoolConst(true);
  if (a->hi < b->lo || b->hi < a->lo) return mkBoolConst(false);
  if (isC(a) && isC(b)) return mkBoolConst(a->cv == b->cv);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (a->k == K_B2I) return b->cv == 1 ? a->a : b->cv == 0 ? bNot(a->a) : mkBoolConst(false);
    if (a->k == K_ADD && isC(a->b)) return iEq(a->a, mkConst(b->cv - a->b->cv));
    if (a->k == K_ITE && isC(a->b) && isC(a->c)) {
      bool x = a->b->cv == b->cv, y = a->c->cv == b->cv;
      return x ? (y ? mkBoolConst(true) : a->a) : (y ? bNot(a->a) : mkBoolConst(false));
    }
  } else if (a->id > b->id) std::swap(a, b);
  return mkB(K_EQ, 0, a, b);
}
Expr *iSlt(Expr *a, Expr *b) {
  if (a == b) return mkBoolConst(false);
  if (a->hi < b->lo) return mkBoolConst(true);
  if (a->lo >= b->hi) return mkBoolConst(false);
  return mkB(K_SLT, 0, a, b);
}
Expr *iSle(Expr *a, Expr *b) {
  if (a == b) return mkBoolConst(true);
  if (a->hi <= b->lo) return mkBoolConst(true);
  if (a->lo > b->hi) return mkBoolConst(false);
  return mkB(K_SLE, 0, a, b);
}
Expr *iUlt(Expr *a, Expr *b, int bits) {
  if (a->lo >= 0 && b->lo >= 0) return iSlt(a, b);
  if (a->hi < 0 && b->hi < 0) return iSlt(a, b);
  if (a->lo >= 0 && b->hi < 0) return mkBoolConst(true);
  if (a->hi < 0 && b->lo >= 0) return mkBoolConst(false);
  return mkB(K_ULT, bits, a, b);
}
Expr *iUle(Expr *a, Expr *b, int bits) { return bNot(iUlt(b, a, bits)); }
Expr *iZext(Expr *a, int fb) {
  if (a->lo >= 0) return a;
  if (isC(a)) return mkConst(zx(a->cv, fb));
  i128 lo = 0, hi = ((i128)1 << fb) - 1;
  if (a->hi < 0) { lo = zx(a->lo, fb); hi = zx(a->hi, fb); }
  return mk(K_ZEXT, fb, a, nullptr, nullptr, lo, hi);
}
Expr *iTrunc(Expr *a, int tb) {
  i128 mn = -((i128)1 << (tb - 1)), mx = ((i128)1 << (tb - 1)) - 1;
  if (a->lo >= mn && a->hi <= mx) return a;
  if (isC(a)) return mkConst(sx(a->cv, tb));
  return mk(K_TRUNC, tb, a, nullptr, nullptr, mn, mx);
}
i128 smin(int b) { return -((i128)1 << (b - 1)); }
i128 smax(int b) { return ((i128)1 << (b - 1)) - 1; }

// ------------------------------------------------------------------------------------------------ path events
struct Work {
  std::vector<i64> model;
  u64 prefix;
  u64 hash;
  u64 lastHash;
};
u64 g_prefix, g_idx, g_hash, g_expect;
std::vector<Z3_ast> g_pending;
struct OutTest { std::vector<i64> m; u64 prefix, hash; };
std::vector<OutTest> g_out;
std::set<std::string> g_reached, g_leaks, g_notes;
std::map<std::string, u64> g_splitsBy;
bool g_incomplete = false;
std::string g_incompleteWhy;
[[noreturn]] void finish(const char *status, const char *msg);
[[noreturn]] void fatal(const char *fmt, ...) {
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (g_active) finish("ENGINE", buf);
  fprintf(stderr, "sym: fatal: %s\n", buf);
  _exit(3);
}
void incomplete(const char *why) {
  g_incomplete = true;
  if (g_incompleteWhy.empty()) g_incompleteWhy = why;
}
void assertz(Z3_ast a) { g_pending.push_back(a); }
std::vector<Z3_ast> g_all;   // every assertion of the path, in order
size_t g_fullSynced = 0, g_defSynced = 0;
std::vector<Expr *> g_muls;  // products occurring in asserted or queried formulas
std::set<Expr *> g_seenMul;
Z3_solver SOLF = nullptr;
void walkMul(Expr *e) {
  if (!e || !g_seenMul.insert(e).second) return;
  if (e->k == K_MUL && !isC(e->a) && !isC(e->b)) g_muls.push_back(e);
  walkMul(e->a); walkMul(e->b); walkMul(e->c);
  if (e->tab) for (auto *x : e->tab->atoms) walkMul(x);
  if (e->ptab) for (auto *x : e->ptab->atoms) walkMul(x);
}
void flush() {
  for (auto a : g_pending) { Z3_solver_assert(Z, SOL, a); g_all.push_back(a); }
  g_pending.clear();
}
void setTimeout(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms);
  Z3_solver_set_params(Z, s, p);
  Z3_params_dec_ref(Z, p);
}
i64 numeral(Z3_ast v, int w);
std::vector<i64> modelInputs(Z3_model m);
int cvc5Query(std::vector<i64> &in, Expr *ev, i128 *val);
// satisfiability of path condition && extra; on sat: inputs (and the value of ev)
int query(const std::vector<Z3_ast> &extra, std::vector<i64> &in, Expr *ev, i128 *val) {
  flush();
  st.queries++;
  double t = now();
  auto fromModel = [&](Z3_solver s) {
    Z3_model m = Z3_solver_get_model(Z, s);
    Z3_model_inc_ref(Z, m);
    in = modelInputs(m);
    if (ev) { Z3_ast out = nullptr; Z3_model_eval(Z, m, ev->ast, true, &out); *val = numeral(out, ev->w); }
    Z3_model_dec_ref(Z, m);
  };
  Z3_solver_push(Z, SOL);
  for (auto a : extra) Z3_solver_assert(Z, SOL, a);
  int r = Z3_solver_check(Z, SOL);
  if (r == Z3_L_TRUE && g_muls.empty()) fromModel(SOL);
  Z3_solver_pop(Z, SOL, 1);
  if (!g_muls.empty() && r != Z3_L_FALSE) {
    st.refined++;
    if (!SOLF) {
      SOLF = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
      Z3_solver_inc_ref(Z, SOLF);
    }
    for (; g_fullSynced < g_all.size(); g_fullSynced++) Z3_solver_assert(Z, SOLF, g_all[g_fullSynced]);
    for (; g_defSynced < g_muls.size(); g_defSynced++) {
      Expr *e = g_muls[g_defSynced];
      Z3_solver_assert(Z, SOLF, Z3_mk_eq(Z, e->ast, Z3_mk_bvmul(Z, asW(e->a, e->w), asW(e->b, e->w))));
    }
    Z3_solver_push(Z, SOLF);
    for (auto a : extra) Z3_solver_assert(Z, SOLF, a);
    setTimeout(SOLF, 1500);
    r = Z3_solver_check(Z, SOLF);
    if (r == Z3_L_TRUE) fromModel(SOLF);
    if (r == Z3_L_UNDEF) {
      st.second++;
      int c = cvc5Query(in, ev, val);
      r = c > 0 ? Z3_L_TRUE : c == 0 ? Z3_L_FALSE : Z3_L_UNDEF;
      if (r == Z3_L_UNDEF) {
        setTimeout(SOLF, 60000);
        r = Z3_solver_check(Z, SOLF);
        if (r == Z3_L_TRUE) fromModel(SOLF);
      }
    }
    Z3_solver_pop(Z, SOLF, 1);
  }
  st.solver += now() - t;
  if (r == Z3_L_TRUE) { st.sat++; return 1; }
  if (r == Z3_L_FALSE) { st.unsat++; return 0; }
  st.unknown++;
  incomplete("solver returned unknown");
  return -1;
}
i64 numeral(Z3_ast v, int w) {
  const char *s = Z3_get_numeral_string(Z, v);
  unsigned __int128 u = 0;
  for (; *s; ++s) u = u * 10 + (*s - '0');
  return (i64)sx((i128)u, w);
}
std::vector<i64> modelInputs(Z3_model m) {
  std::vector<i64> r;
  for (size_t i = 0; i < g_vars.size(); i++) {
    Expr *v = g_vars[i];
    if (v->k == K_CONST) { r.push_back((i64)v->cv); continue; }
    Z3_ast out = nullptr;
    if (!Z3_model_eval(Z, m, v->ast, false, &out) || Z3_get_ast_kind(Z, out) != Z3_NUMERAL_AST) { r.push_back((i64)v->cv); continue; }
    i64 val = numeral(out, v->w);
    if (val < v->lo || val > v->hi) val = (i64)v->cv;
    r.push_back(val);
  }
  return r;
}
// second solver for hard non-linear queries
int cvc5Query(std::vector<i64> &in, Expr *ev, i128 *val) {
  char fn[64];
  snprintf(fn, sizeof fn, "/tmp/symq.%d.smt2", getpid());
  FILE *f = fopen(fn, "w");
  if (!f) return -1;
  fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(Z, SOLF));
  for (auto *v : g_vars) if (v->k != K_CONST) fprintf(f, "(get-value (v%d))\n", v->imm);
  if (ev) fprintf(f, "(get-value (%s))\n", Z3_ast_to_string(Z, ev->ast));
  fclose(f);
  char cmd[160];
  snprintf(cmd, sizeof cmd, "timeout 60 cvc5 --produce-models %s 2>/dev/null", fn);
  FILE *p = popen(cmd, "r");
  int res = -1;
  std::vector<std::string> lines;
  if (p) { char *l = nullptr; size_t n = 0; while (getline(&l, &n, p) > 0) lines.push_back(l); pclose(p); }
  unlink(fn);
  if (lines.empty()) return -1;
  if (lines[0] == "unsat\n") return 0;
  if (lines[0] != "sat\n") return -1;
  auto parse = [](const std::string &s, int w) -> i128 {
    size_t q = s.rfind("#b");
    if (q == std::string::npos) return 0;
    unsigned __int128 u = 0;
    for (q += 2; q < s.size() && (s[q] == '0' || s[q] == '1'); q++) u = u * 2 + (s[q] - '0');
    return sx((i128)u, w);
  };
  std::map<int, i128> m;
  size_t li = 1;
  for (auto *v : g_vars) if (v->k != K_CONST) {
    if (li >= lines.size() || lines[li].find("#b") == std::string::npos) return -1;
    m[v->imm] = parse(lines[li++], v->w);
  }
  in.clear();
  for (auto *v : g_vars) in.push_back(v->k == K_CONST ? (i64)v->cv : (i64)m[v->imm]);
  if (ev) { std::string rest; for (; li < lines.size(); li++) rest += lines[li]; if (rest.rfind("#b") == std::string::npos) return -1; *val = parse(rest, ev->w); }
  (void)res;
  return 1;
}
u64 mix(u64 h, u64 x) {
  h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
extern "C" char __executable_start __attribute__((weak));
bool g_trace = false;
void tr(const char *k, u64 site, u64 v) {
  if (!g_trace) return;
  Dl_info d;
  if (dladdr((void *)site, &d)) site -= (u64)d.dli_fbase;
  fprintf(stderr, "T %u %d %s %llx %lld\n", (unsigned)getpid(), (int)g_idx, k, (unsigned long long)(site), (long long)v);
}
void endEvent(u64 h) {
  g_hash = h;
  g_idx++;
  st.events++;
  if (g_idx == g_prefix && g_hash != g_expect) {
    st.diverged++; if (g_trace) fprintf(stderr, "T %u DIV\n", (unsigned)getpid());
    finish("DIVERGED", "path diverged from prediction");
  }
}
// a branch on boolean expression c with current concrete value taken
bool g_inCheck = false;
void decide(Expr *c, u64 site) {
  if (isC(c)) return;
  if (c->k == K_NOT) c = c->a;
  bool taken = c->cv != 0;
  auto it = g_decided.find(c);
  if (it != g_decided.end()) return;
  g_decided[c] = taken;
  Z3_ast pos = taken ? c->ast : Z3_mk_not(Z, c->ast);
  Z3_ast neg = taken ? Z3_mk_not(Z, c->ast) : c->ast;
  u64 h0 = g_hash;
  walkMul(c);
  if (g_idx >= g_prefix) {
    std::vector<i64> in;
    int r = query({neg}, in, nullptr, nullptr);
    if (r == 1) {
      g_out.push_back({in, g_idx + 1, mix(mix(h0, site), !taken)});
      if (g_trace) { std::string t; for (auto v : in) t += " " + std::to_string(v); fprintf(stderr, "N %u %d neg %s :: %s\n", (unsigned)getpid(), (int)g_idx, Z3_ast_to_string(Z, neg), t.c_str()); }
      assertz(pos);
    } else if (r == 0) {
      if (g_inCheck) st.checkQueriesUnsat++;
      // implied: nothing to assert
    } else
      assertz(pos);
  } else
    assertz(pos);
  tr("B", site, taken);
  endEvent(mix(mix(h0, site), taken));
}
// complete split on the value of an INT expression
i128 splitInt(Expr *e, u64 site, const char *why) {
  if (isC(e)) return e->cv;
  auto it = g_constof.find(e);
  if (it != g_constof.end()) return it->second;
  st.splits++;
  if (why) g_splitsBy[why]++;
  i128 v0 = e->cv;
  u64 h0 = g_hash;
  walkMul(e);
  auto ne = [&](i128 v) { return Z3_mk_not(Z, Z3_mk_eq(Z, e->ast, bvconst(v, e->w))); };
  if (g_idx >= g_prefix) {
    std::vector<Z3_ast> ex{ne(v0)};
    int cnt = 0;
    while (true) {
      std::vector<i64> in;
      i128 v = 0;
      if (query(ex, in, e, &v) != 1) break;
      g_out.push_back({in, g_idx + 1, mix(mix(h0, site), (u64)v)});
      ex.push_back(ne(v));
      st.splitValues++;
      if (++cnt > 5000) { incomplete("value split exceeds 5000 values"); break; }
    }
  }
  assertz(Z3_mk_eq(Z, e->ast, bvconst(v0, e->w)));
  g_constof[e] = v0;
  tr(why ? why : "S", site, (u64)v0);
  endEvent(mix(mix(h0, site), (u64)v0));
  return v0;
}

// ------------------------------------------------------------------------------------------------ tables
long domSize(const std::vector<Expr *> &at) {
  long n = 1;
  for (auto *a : at) {
    i128 r = curHi(a) - curLo(a) + 1;
    if (r > LIM) return LIM * 4;
    n *= (long)r;
    if (n > LIM) return LIM * 4;
  }
  return n;
}
void support(Expr *e, std::set<Expr *> &out, std::set<Expr *> &seen) {
  if (!e || !seen.insert(e).second) return;
  if (e->k == K_CONST) return;
  if (e->k == K_VAR) { out.insert(e); return; }
  if (e->k == K_TAB) { for (auto *a : e->tab->atoms) support(a, out, seen); return; }
  if (e->k == K_TABP) { for (auto *a : e->ptab->atoms) support(a, out, seen); return; }
  support(e->a, out, seen);
  support(e->b, out, seen);
  support(e->c, out, seen);
}
struct Dom {
  std::vector<Expr *> at;
  std::vector<i128> lo;
  std::vector<int> n;
  long size = 1;
  std::vector<long> stride;
  explicit Dom(std::vector<Expr *> a) : at(std::move(a)) {
    for (auto *x : at) { lo.push_back(curLo(x)); n.push_back((int)(curHi(x) - curLo(x) + 1)); }
    stride.resize(at.size());
    for (int i = (int)at.size() - 1; i >= 0; i--) { stride[i] = size; size *= n[i]; }
  }
  i128 val(long t, int i) const { return lo[i] + (t / stride[i]) % n[i]; }
};
// evaluates an INT/BOOL expression for all tuples of a domain over atoms (atoms are leaves)
using Vec = std::shared_ptr<std::vector<i128>>;
Vec evalVec(Expr *e, const Dom &d, std::map<Expr *, Vec> &memo) {
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Vec r = std::make_shared<std::vector<i128>>(d.size);
  for (size_t i = 0; i < d.at.size(); i++)
    if (d.at[i] == e) {
      for (long t = 0; t < d.size; t++) (*r)[t] = d.val(t, i);
      return memo[e] = r;
    }
  auto ci = g_constof.find(e);
  if (e->k == K_CONST || ci != g_constof.end()) {
    std::fill(r->begin(), r->end(), e->k == K_CONST ? e->cv : ci->second);
    return memo[e] = r;
  }
  if (e->k == K_VAR) fatal("evalVec: variable outside domain");
  if (e->k == K_TABP) {
    PTable &p = *e->ptab;
    std::vector<Vec> av;
    for (auto *a : p.atoms) av.push_back(evalVec(a, d, memo));
    for (long t = 0; t < d.size; t++) {
      long ix = 0;
      bool in = true;
      for (size_t i = 0; i < av.size(); i++) {
        i128 o = (*av[i])[t] - p.lo[i];
        if (o < 0 || o >= p.n[i]) { in = false; break; }
        ix = ix * p.n[i] + (long)o;
      }
      (*r)[t] = in ? p.v[ix] : 0;
    }
    return memo[e] = r;
  }
  Vec a = e->a ? evalVec(e->a, d, memo) : nullptr, b = e->b ? evalVec(e->b, d, memo) : nullptr, c = e->c ? evalVec(e->c, d, memo) : nullptr;
  for (long t = 0; t < d.size; t++) (*r)[t] = evalOp(e->k, e->imm, (*a)[t], b ? (*b)[t] : 0, c ? (*c)[t] : 0);
  return memo[e] = r;
}
// value of FP expression over domain
std::shared_ptr<std::vector<double>> evalF(Expr *e, const Dom &d, std::map<Expr *, Vec> &memo) {
  auto r = std::make_shared<std::vector<double>>(d.size);
  if (e->k == K_FIX || e->k == K_SQRT) {
    Vec v = evalVec(e->a, d, memo);
    for (long t = 0; t < d.size; t++) {
      double x = ldexp((double)(*v)[t], -e->imm);
      (*r)[t] = e->k == K_SQRT ? std::sqrt(x) : x;
    }
    return r;
  }
  Table &p = *e->tab;
  std::vector<Vec> av;
  for (auto *a : p.atoms) av.push_back(evalVec(a, d, memo));
  for (long t = 0; t < d.size; t++) {
    long ix = 0;
    bool in = true;
    for (size_t i = 0; i < av.size(); i++) {
      i128 o = (*av[i])[t] - p.lo[i];
      if (o < 0 || o >= p.n[i]) { in = false; break; }
      ix = ix * p.n[i] + (long)o;
    }
    (*r)[t] = in ? p.v[ix] : 0.;  // outside: infeasible combination
  }
  return r;
}
void addAtoms(Expr *e, std::vector<Expr *> &at) {
  auto add = [&](Expr *x) {
    if (isC(x) || g_constof.count(x)) return;
    if (std::find(at.begin(), at.end(), x) == at.end()) at.push_back(x);
  };
  if (!e) return;
  if (e->k == K_FIX || e->k == K_SQRT) add(e->a);
  else if (e->k == K_TAB) for (auto *a : e->tab->atoms) add(a);
  else if (e->cls == 1) add(b2i(e));
  else if (e->cls == 0) add(e);
}
// choose a domain for a set of expressions: atoms if small, else inputs, else split atoms until it fits
Dom chooseDom(const std::vector<Expr *> &es, u64 site) {
  while (true) {
    std::vector<Expr *> at;
    for (auto *e : es) addAtoms(e, at);
    long n = domSize(at);
    if (n <= 4096) return Dom(at);
    std::set<Expr *> sup, seen;
    for (auto *e : es) support(e, sup, seen);
    std::vector<Expr *> vs;
    for (auto *v : sup) if (!g_constof.count(v)) vs.push_back(v);
    std::sort(vs.begin(), vs.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
    long m = domSize(vs);
    if (m < n && m <= LIM) return Dom(vs);
    if (n <= LIM) return Dom(at);
    // split the atom with the largest range below 4096 values (or any)
    Expr *best = nullptr;
    for (auto *a : at) {
      if (!best || (curHi(a) - curLo(a)) < (curHi(best) - curLo(best))) best = a;
    }
    splitInt(best, site, "table domain");
  }
}
Expr *mkF(Kind k, Expr *a, int g, double fv);
Expr *mkFix(Expr *i, int g, double fv) {
  if (isC(i)) return nullptr;
  return mkF(K_FIX, i, g, fv);
}
Expr *mkF(Kind k, Expr *a, int g, double fv) {
  Key key{k, g, a, nullptr, nullptr, 2};
  auto it = g_cons.find(key);
  if (it != g_cons.end()) { it->second->fv = fv; return it->second; }
  Expr *e = alloc();
  e->k = k; e->cls = 2; e->imm = g; e->a = a; e->fv = fv; e->id = g_nextid++;
  g_cons[key] = e;
  return e;
}
bool sameBits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
Expr *mkTab(const Dom &d, std::vector<double> v, double fv) {
  st.tabs++;
  bool allSame = true;
  for (auto &x : v) if (!sameBits(x, v[0])) { allSame = false; break; }
  if (allSame) return nullptr;
  // drop atoms the value does not depend on
  Expr *e = alloc();
  e->k = K_TAB; e->cls = 2; e->fv = fv; e->id = g_nextid++;
  e->tab = new Table{d.at, d.lo, d.n, std::move(v)};
  return e;
}
// boolean predicate table -> z3 / expr
Z3_ast pred(const Dom &d, const char *v, size_t level, long n, std::map<std::pair<size_t, std::string>, Z3_ast> &memo) {
  if (level == d.at.size()) return v[0] ? Z3_mk_true(Z) : Z3_mk_false(Z);
  bool all1 = true, all0 = true;
  for (long i = 0; i < n && (all1 || all0); i++) (v[i] ? all0 : all1) = false;
  if (all1) return Z3_mk_true(Z);
  if (all0) return Z3_mk_false(Z);
  std::string key(v, n);
  auto it = memo.find({level, key});
  if (it != memo.end()) return it->second;
  long sub = n / d.n[level];
  Expr *at = d.at[level];
  std::map<std::string, std::vector<std::pair<int, int>>> groups;
  for (int i = 0; i < d.n[level]; i++) {
    auto &g = groups[std::string(v + i * sub, sub)];
    if (!g.empty() && g.back().second == i - 1) g.back().second = i;
    else g.push_back({i, i});
  }
  std::vector<Z3_ast> alts;
  for (auto &g : groups) {
    Z3_ast s = pred(d, g.first.data(), level + 1, sub, memo);
    std::vector<Z3_ast> rs;
    for (auto &r : g.second) {
      i128 lo = d.lo[level] + r.first, hi = d.lo[level] + r.second;
      Z3_ast l = bvconst(lo, at->w), h = bvconst(hi, at->w);
      if (lo == hi) rs.push_back(Z3_mk_eq(Z, at->ast, l));
      else if (lo <= at->lo) rs.push_back(Z3_mk_bvsle(Z, at->ast, h));
      else if (hi >= at->hi) rs.push_back(Z3_mk_bvsge(Z, at->ast, l));
      else { Z3_ast x[2] = {Z3_mk_bvsge(Z, at->ast, l), Z3_mk_bvsle(Z, at->ast, h)}; rs.push_back(Z3_mk_and(Z, 2, x)); }
    }
    Z3_ast in = rs.size() == 1 ? rs[0] : Z3_mk_or(Z, rs.size(), rs.data());
    Z3_ast x[2] = {in, s};
    alts.push_back(Z3_mk_and(Z, 2, x));
  }
  Z3_ast r = alts.size() == 1 ? alts[0] : Z3_mk_or(Z, alts.size(), alts.data());
  memo[{level, key}] = r;
  return r;
}
Expr *mkPred(const Dom &d, std::vector<char> v, bool cv) {
  bool all1 = true, all0 = true;
  for (auto c : v) (c ? all0 : all1) = false;
  if (all1) return mkBoolConst(true);
  if (all0) return mkBoolConst(false);
  std::map<std::pair<size_t, std::string>, Z3_ast> memo;
  Expr *e = alloc();
  e->k = K_TABP; e->cls = 1; e->lo = 0; e->hi = 1; e->id = g_nextid++;
  e->cv = cv;
  e->ast = pred(d, v.data(), 0, d.size, memo);
  e->ptab = new PTable{d.at, d.lo, d.n, std::move(v)};
  return e;
}
// exact dyadic constant
bool dyadic(double x, i128 &m, int &g) {
  if (!std::isfinite(x)) return false;
  if (x == 0) { m = 0; g = 0; return true; }
  int e;
  double f = frexp(x, &e);
  i64 mm = (i64)ldexp(f, 53);
  int gg = 53 - e;
  while (!(mm & 1)) { mm /= 2; gg--; }
  m = mm;
  g = gg;
  return g < 1000 && g > -1000;
}
// view of an operand as FIX: (int expr, g)
struct Fx { Expr *e; int g; bool ok; };
Fx fixOf(Expr *s, double v) {
  if (s && s->k == K_FIX) { Expr *x = fold(s->a); return {x, s->imm, true}; }
  if (s) return {nullptr, 0, false};
  i128 m; int g;
  if (!dyadic(v, m, g)) return {nullptr, 0, false};
  return {mkConst(m), g, true};
}
i128 mag(Expr *e) { i128 a = e->lo < 0 ? -e->lo : e->lo, b = e->hi < 0 ? -e->hi : e->hi; return std::max(a, b); }
const i128 EXACT = (i128)1 << 53;
int bitlen(i128 v) { int n = 0; while (v) { n++; v >>= 1; } return n; }
bool align(Fx &a, Fx &b, int maxbits) {
  int g = std::max(a.g, b.g);
  if (isC(a.e) && a.e->cv == 0) { a.g = b.g; return true; }
  if (isC(b.e) && b.e->cv == 0) { b.g = a.g; return true; }
  if (bitlen(mag(a.e)) + (g - a.g) > maxbits || bitlen(mag(b.e)) + (g - b.g) > maxbits) return false;
  a.e = iShlc(a.e, g - a.g);
  b.e = iShlc(b.e, g - b.g);
  a.g = b.g = g;
  return true;
}
void checkFix(Expr *i, int g, double fv, const char *op) {
  double x = ldexp((double)i->cv, -g);
  if (!(x == fv)) fatal("internal: FIX mismatch in %s: %.17g vs %.17g", op, x, fv);
}
Expr *tabUn(Expr *s, double res, double (*f)(double, void *), void *p, u64 site) {
  Dom d = chooseDom({s}, site);
  std::map<Expr *, Vec> memo;
  auto v = evalF(s, d, memo);
  std::vector<double> r(d.size);
  for (long t = 0; t < d.size; t++) r[t] = f((*v)[t], p);
  return mkTab(d, std::move(r), res);
}
template <typename Fn>
Expr *tabBin(Expr *a, Expr *b, double va, double vb, double res, u64 site, Fn f) {
  Dom d = chooseDom({a, b}, site);
  if (d.at.empty()) return nullptr;
  std::map<Expr *, Vec> memo;
  std::shared_ptr<std::vector<double>> x, y;
  if (a) x = evalF(a, d, memo);
  if (b) y = evalF(b, d, memo);
  std::vector<double> r(d.size);
  for (long t = 0; t < d.size; t++) r[t] = f(x ? (*x)[t] : va, y ? (*y)[t] : vb);
  return mkTab(d, std::move(r), res);
}
double fopv(int op, double a, double b) {
  switch (op) {
    case 14: return a + b;   // FAdd
    case 16: return a - b;   // FSub
    case 18: return a * b;   // FMul
    case 21: return a / b;   // FDiv
    case 24: return fmod(a, b);
    case 1000: return fmin(a, b);
    case 1001: return fmax(a, b);
    case 1002: return copysign(a, b);
    case 1003: return pow(a, b);
    case 1004: return atan2(a, b);
    case 1005: return hypot(a, b);
    case 1006: return fmod(a, b);
  }
  fatal("fopv %d", op);
}
Expr *fcmpE(int pred, Expr *a, Expr *b, double va, double vb, u64 site);
Expr *fIteE(Expr *c, Expr *a, Expr *b, double va, double vb, u64 site);

Expr *fbin(int op, Expr *a, Expr *b, double va, double vb, u64 site) {
  if (!a && !b) return nullptr;
  if (a) va = a->fv;
  if (b) vb = b->fv;
  double res = fopv(op, va, vb);
  Fx x = fixOf(a, va), y = fixOf(b, vb);
  if (x.ok && y.ok) {
    if (isC(x.e) && isC(y.e)) return nullptr;
    if (op == 14 || op == 16) {
      if (isC(y.e) && y.e->cv == 0) { if (a && a->k == K_FIX) { return mkFix(x.e, x.g, res); } }
      if (align(x, y, 60)) {
        Expr *r = op == 14 ? iAdd(x.e, y.e) : iSub(x.e, y.e);
        if (mag(r) < EXACT) {
          if (isC(r)) return nullptr;
          checkFix(r, x.g, res, "add");
          return mkFix(r, x.g, res);
        }
      }
    } else if (op == 18) {
      if (isC(x.e) && x.e->cv == 0) return nullptr;
      if (isC(y.e) && y.e->cv == 0) return nullptr;
      if (bitlen(mag(x.e)) + bitlen(mag(y.e)) <= 62) {
        Expr *r = iMul(x.e, y.e);
        int g = x.g + y.g;
        if (mag(r) < EXACT && g < 1000 && g > -900) {
          if (isC(r)) return nullptr;
          checkFix(r, g, res, "mul");
          return mkFix(r, g, res);
        }
      }
    } else if (op == 21) {
      if (isC(y.e) && (y.e->cv == 1 || y.e->cv == -1)) {
        Expr *r = y.e->cv == 1 ? x.e : iSub(mkConst(0), x.e);
        int g = x.g - y.g;
        checkFix(r, g, res, "div");
        return mkFix(r, g, res);
      }
      if (isC(x.e) && x.e->cv == 0 && (y.e->lo > 0 || y.e->hi < 0)) return nullptr;
    } else if (op == 1000 || op == 1001) {
      Expr *c = fcmpE(4, a, b, va, vb, site);  // a < b
      return op == 1000 ? fIteE(c, a, b, va, vb, site) : fIteE(c, b, a, vb, va, site);
    } else if (op == 1005) {  // hypot with a zero leg
      if (isC(y.e) && y.e->cv == 0) return mkFix(iAbs(x.e), x.g, res);
      if (isC(x.e) && x.e->cv == 0) return mkFix(iAbs(y.e), y.g, res);
    }
  }
  if ((op == 14 || op == 16) && a && !b && vb == 0) return a;
  if (op == 14 && b && !a && va == 0) return b;
  if (op == 18 && a && !b && vb == 1) return a;
  if (op == 18 && b && !a && va == 1) return b;
  if (op == 21 && a && !b && vb == 1) return a;
  return tabBin(a, b, va, vb, res, site, [op](double p, double q) { return fopv(op, p, q); });
}
bool fpred(int p, double a, double b) {
  bool uno = std::isnan(a) || std::isnan(b);
  switch (p) {
    case 0: return false;
    case 1: return a == b;
    case 2: return a > b;
    case 3: return a >= b;
    case 4: return a < b;
    case 5: return a <= b;
    case 6: return !uno && a != b;
    case 7: return !uno;
    case 8: return uno;
    case 9: return uno || a == b;
    case 10: return uno || a > b;
    case 11: return uno || a >= b;
    case 12: return uno || a < b;
    case 13: return uno || a <= b;
    case 14: return uno || a != b;
    case 15: return true;
  }
  if (p >= 4096) {
    int m = p - 4096, c;  // llvm fpclass mask
    switch (std::fpclassify(a)) {
      case FP_NAN: c = 3; break;
      case FP_INFINITE: c = std::signbit(a) ? 4 : 512; break;
      case FP_ZERO: c = std::signbit(a) ? 32 : 64; break;
      case FP_SUBNORMAL: c = std::signbit(a) ? 16 : 128; break;
      default: c = std::signbit(a) ? 8 : 256;
    }
    return (m & c) != 0;
  }
  fatal("fpred %d", p);
}
Expr *icmp6(int q, Expr *a, Expr *b) {  // 0 eq 1 ne 2 gt 3 ge 4 lt 5 le
  switch (q) {
    case 0: return iEq(a, b);
    case 1: return bNot(iEq(a, b));
    case 2: return iSlt(b, a);
    case 3: return iSle(b, a);
    case 4: return iSlt(a, b);
    default: return iSle(a, b);
  }
}
int predIdx(int p) {
  switch (p) {
    case 1: case 9: return 0;
    case 6: case 14: return 1;
    case 2: case 10: return 2;
    case 3: case 11: return 3;
    case 4: case 12: return 4;
    case 5: case 13: return 5;
  }
  return -1;
}
int swapIdx(int q) { return q == 2 ? 4 : q == 3 ? 5 : q == 4 ? 2 : q == 5 ? 3 : q; }
// FIX/SQRT value compared with a finite constant
Expr *cmpConst(int q, Expr *e, int g, bool root, double c) {
  // T1 = min int with val >= c ; T2 = min int with val > c
  i128 lo = e->lo, hi = e->hi;
  auto f = [&](i128 i) { double x = ldexp((double)i, -g); return root ? std::sqrt(x) : x; };
  auto search = [&](bool strict) {
    i128 l = lo, h = hi + 1;
    while (l < h) {
      i128 m = l + (h - l) / 2;
      double v = f(m);
      if (strict ? v > c : v >= c) h = m;
      else l = m + 1;
    }
    return l;
  };
  i128 T1 = search(false), T2 = search(true);
  Expr *t1 = mkConst(T1), *t2 = mkConst(T2);
  Expr *eq = T1 == T2 ? mkBoolConst(false) : (T2 == T1 + 1 ? iEq(e, t1) : bAnd(iSle(t1, e), iSlt(e, t2)));
  switch (q) {
    case 0: return eq;
    case 1: return bNot(eq);
    case 2: return iSle(t2, e);
    case 3: return iSle(t1, e);
    case 4: return iSlt(e, t1);
    default: return iSlt(e, t2);
  }
}
Expr *fcmpE(int p, Expr *a, Expr *b, double va, double vb, u64 site) {
  if (!a && !b) return nullptr;
  if (a) va = a->fv;
  if (b) vb = b->fv;
  auto isAlg = [](Expr *e) { return e->k == K_FIX || e->k == K_SQRT; };
  bool alg = (!a || isAlg(a)) && (!b || isAlg(b));
  if (alg) {
    if (p == 7) return (!a && std::isnan(va)) || (!b && std::isnan(vb)) ? mkBoolConst(false) : mkBoolConst(true);
    if (p == 8) return (!a && std::isnan(va)) || (!b && std::isnan(vb)) ? mkBoolConst(true) : mkBoolConst(false);
    if ((!a && !std::isfinite(va)) || (!b && !std::isfinite(vb))) return p < 4096 ? mkBoolConst(fpred(p, va, vb)) : nullptr;
    int q = predIdx(p);
    if (q >= 0) {
      if (a && !b) return cmpConst(q, fold(a->a), a->imm, a->k == K_SQRT, vb);
      if (b && !a) return cmpConst(swapIdx(q), fold(b->a), b->imm, b->k == K_SQRT, va);
      Fx x{fold(a->a), a->imm, true}, y{fold(b->a), b->imm, true};
      if (a->k == K_FIX && b->k == K_FIX) {
        if (align(x, y, 120)) return icmp6(q, x.e, y.e);
      } else if (a->k == K_SQRT && b->k == K_SQRT) {
        Fx x2 = x, y2 = y;
        if (align(x2, y2, 50)) return icmp6(q, x2.e, y2.e);
      } else {
        // sqrt(A) vs F
        bool sw = a->k == K_FIX;
        Fx A = sw ? y : x, Fv = sw ? x : y;
        int qq = sw ? swapIdx(q) : q;
        if (bitlen(mag(Fv.e)) <= 24) {
          Fx F2{iMul(Fv.e, Fv.e), 2 * Fv.g, true};
          if (align(A, F2, 50)) {
            Expr *neg = iSlt(Fv.e, mkConst(0));
            bool negRes = qq == 1 || qq == 2 || qq == 3;
            return bIte(neg, mkBoolConst(negRes), icmp6(qq, A.e, F2.e));
          }
        }
      }
    }
  }
  Dom d = chooseDom({a, b}, site);
  if (d.at.empty()) return nullptr;
  std::map<Expr *, Vec> memo;
  std::shared_ptr<std::vector<double>> x, y;
  if (a) x = evalF(a, d, memo);
  if (b) y = evalF(b, d, memo);
  std::vector<char> r(d.size);
  for (long t = 0; t < d.size; t++) r[t] = fpred(p, x ? (*x)[t] : va, y ? (*y)[t] : vb);
  return mkPred(d, std::move(r), fpred(p, va, vb));
}
Expr *fIteE(Expr *c, Expr *a, Expr *b, double va, double vb, u64 site) {
  if (a) va = a->fv;
  if (b) vb = b->fv;
  if (!c || isC(c)) return (c ? c->cv != 0 : true) ? a : b;
  double res = c->cv ? va : vb;
  if (a == b && (a || sameBits(va, vb))) return a;
  if ((!a || a->k == K_FIX) && (!b || b->k == K_FIX)) {
    Fx x = fixOf(a, va), y = fixOf(b, vb);
    if (x.ok && y.ok && align(x, y, 100) ) {
      Expr *r = iIte(c, x.e, y.e);
      if (isC(r)) return nullptr;
      return mkFix(r, x.g, res);
    }
  }
  if (a && b && a->k == K_SQRT && b->k == K_SQRT && a->imm == b->imm) return mkF(K_SQRT, iIte(c, a->a, b->a), a->imm, res);
  // table over atoms of both and the condition; otherwise split on the condition
  std::vector<Expr *> at;
  addAtoms(a, at); addAtoms(b, at); addAtoms(c, at);
  if (domSize(at) > 4096) { decide(c, site); return c->cv ? a : b; }
  Dom d(at);
  std::map<Expr *, Vec> memo;
  Vec cv = evalVec(b2i(c), d, memo);
  std::shared_ptr<std::vector<double>> x, y;
  if (a) x = evalF(a, d, memo);
  if (b) y = evalF(b, d, memo);
  std::vector<double> r(d.size);
  for (long t = 0; t < d.size; t++) r[t] = (*cv)[t] ? (x ? (*x)[t] : va) : (y ? (*y)[t] : vb);
  return mkTab(d, std::move(r), res);
}
double funv(int op, double x) {
  switch (op) {
    case 0: return -x;
    case 1: return fabs(x);
    case 2: return sqrt(x);
    case 3: return floor(x);
    case 4: return ceil(x);
    case 5: return trunc(x);
    case 6: return round(x);
    case 7: return rint(x);
    case 10: return sin(x);
    case 11: return cos(x);
    case 12: return exp(x);
    case 13: return log(x);
    case 14: return tan(x);
    case 15: return atan(x);
    case 16: return asin(x);
    case 17: return acos(x);
    case 18: return sinh(x);
    case 19: return cosh(x);
    case 20: return tanh(x);
    case 21: return log10(x);
  }
  fatal("funv %d", op);
}
Expr *funE(int op, Expr *a, u64 site) {
  if (!a) return nullptr;
  double res = funv(op, a->fv);
  if (a->k == K_FIX) {
    Expr *x = fold(a->a);
    if (isC(x)) return nullptr;
    int g = a->imm;
    if (op == 0) return mkFix(iSub(mkConst(0), x), g, res);
    if (op == 1) return mkFix(iAbs(x), g, res);
    if (op == 2 && x->lo >= 0 && mag(x) < ((i128)1 << 52)) {
      if (g % 2 == 0 && x->k == K_MUL && x->a == x->b) return mkFix(iAbs(x->a), g / 2, res);
      return mkF(K_SQRT, x, g, res);
    }
    if (g <= 0 && op >= 3 && op <= 7) return a;
    if (op == 3) { Expr *r = iAshr(x, g); return isC(r) ? nullptr : mkFix(r, 0, res); }
    if (op == 4) { Expr *r = iSub(mkConst(0), iAshr(iSub(mkConst(0), x), g)); return isC(r) ? nullptr : mkFix(r, 0, res); }
  }
  if (a->k == K_SQRT && op == 1) return a;
  struct P { int op; } pp{op};
  return tabUn(a, res, [](double v, void *q) { return funv(((P *)q)->op, v); }, &pp, site);
}
// ------------------------------------------------------------------------------------------------ conversions
Expr *asInt(Expr *s, i128 v, int bits, u64 site);
// shadows may be INT, BOOL or FP nodes; get INT node (or constant) for integer use
Expr *toInt(Expr *s, u64 raw, int bits, u64 site) {
  if (!s) return mkConst(sx((i128)raw, bits));
  if (s->cls == 1) return bits == 1 ? s : b2i(s);
  if (s->cls == 2) {  // bit pattern of a double: complete split
    std::vector<Expr *> at;
    addAtoms(s, at);
    for (auto *a : at) splitInt(a, site, "double used as bits");
    u64 u; memcpy(&u, &s->fv, 8);
    return mkConst(sx((i128)u, bits));
  }
  return fold(s);
}
Expr *toBool(Expr *s, u64 raw, u64 site) {
  if (!s) return mkBoolConst(raw & 1);
  if (s->cls == 1) return s;
  Expr *x = toInt(s, raw, 1, site);
  if (isC(x)) return mkBoolConst(x->cv & 1);
  if (x->k == K_B2I) return x->a;
  return iEq(mk(K_AND, 0, x, mkConst(1), nullptr, 0, 1), mkConst(1));
}
Expr *norm(Expr *e) { return (!e || isC(e)) ? nullptr : e; }
void splitAny(Expr *s, u64 site, const char *why) {
  if (!s || isC(s)) return;
  if (s->cls == 1) { decide(s, site); return; }
  if (s->cls == 2) {
    std::vector<Expr *> at;
    addAtoms(s, at);
    for (auto *a : at) splitInt(a, site, why);
    return;
  }
  splitInt(s, site, why);
}
u64 rawOf(Expr *s) {
  if (s->cls == 2) { u64 u; memcpy(&u, &s->fv, 8); return u; }
  return (u64)s->cv;
}

// ------------------------------------------------------------------------------------------------ shadow memory
struct Cell { Expr *e[8]; uint8_t ix[8], sz[8]; };
std::unordered_map<u64, Cell> g_mem;
uint8_t g_filt[1 << 16];
inline unsigned fh(u64 a) { return (a >> 6) & 0xffff; }
inline bool maybe(u64 a, u64 n) {
  if (!g_active) return false;
  for (u64 p = a >> 6; p <= (a + n - 1) >> 6; p++) if (g_filt[p & 0xffff]) return true;
  return false;
}
void setByte(u64 a, Expr *e, int ix, int sz) {
  auto &c = g_mem[a >> 3];
  c.e[a & 7] = e; c.ix[a & 7] = ix; c.sz[a & 7] = sz;
  g_filt[fh(a)] = 1;
}
void clearBytes(u64 a, u64 n) {
  if (!n || !maybe(a, n)) return;
  u64 end = a + n;
  if (n > 4096 && n / 8 > g_mem.size()) {
    for (auto &kv : g_mem) for (int i = 0; i < 8; i++) { u64 p = kv.first * 8 + i; if (p >= a && p < end) kv.second.e[i] = nullptr; }
    return;
  }
  while (a < end) {
    auto it = g_mem.find(a >> 3);
    u64 nx = std::min(end, ((a >> 3) + 1) << 3);
    if (it != g_mem.end()) for (u64 p = a; p < nx; p++) it->second.e[p & 7] = nullptr;
    a = nx;
  }
}
inline bool getByte(u64 a, Expr *&e, int &ix, int &sz) {
  auto it = g_mem.find(a >> 3);
  if (it == g_mem.end() || !it->second.e[a & 7]) return false;
  e = it->second.e[a & 7]; ix = it->second.ix[a & 7]; sz = it->second.sz[a & 7];
  return true;
}
Expr *byteOf(Expr *e, int ix, u64 site) {
  if (e->cls == 2) { splitAny(e, site, "partial access to double"); return mkConst((rawOf(e) >> (8 * ix)) & 255); }
  Expr *x = e->cls == 1 ? b2i(e) : fold(e);
  if (isC(x)) return mkConst((x->cv >> (8 * ix)) & 255);
  if (ix == 0 && x->lo >= 0 && x->hi <= 255) return x;
  if (x->lo >= 0 && (x->hi >> (8 * ix)) == 0) return mkConst(0);
  return mk(K_BYTE, ix, x, nullptr, nullptr, 0, 255);
}
Expr *loadShadow(u64 a, int n, u64 raw, u64 site) {
  if (!maybe(a, n)) return nullptr;
  Expr *e0 = nullptr, *e; int ix, sz;
  bool any = false, whole = true;
  for (int i = 0; i < n; i++) {
    if (getByte(a + i, e, ix, sz)) {
      any = true;
      // verify concrete value
      uint8_t want = (rawOf(e) >> (8 * ix)) & 255, got = (raw >> (8 * i)) & 255;
      bool old = want != got;
      // a double that was partly overwritten by code outside the instrumentation is gone as a whole
      if (!old && e->cls == 2 && (ix != i || sz != n)) for (int k = 0; k < sz; k++) old |= *(const uint8_t *)(a + i - ix + k) != (uint8_t)(rawOf(e) >> (8 * k));
      if (old) { st.stale++; if (e->cls == 2 && sz <= 8) clearBytes(a + i - ix, sz); else clearBytes(a + i, 1); whole = false; continue; }
      if (i == 0) e0 = e;
      if (e != e0 || ix != i || sz != n) whole = false;
    } else
      whole = false;
  }
  if (!any) return nullptr;
  if (whole && e0) return e0;
  // assemble
  Expr *acc = mkConst(0);
  bool still = false;
  for (int i = 0; i < n; i++) {
    Expr *b;
    if (getByte(a + i, e, ix, sz)) { b = byteOf(e, ix, site); still = still || !isC(b); }
    else b = mkConst((raw >> (8 * i)) & 255);
    acc = iAdd(acc, iShlc(b, 8 * i));
  }
  if (!still) return nullptr;
  // low part of a wider integer: use truncation directly for better terms
  if (getByte(a, e, ix, sz) && ix == 0 && e->cls == 0 && sz > n) {
    bool seq = true;
    Expr *e2; int ix2, sz2;
    for (int i = 0; i < n; i++) if (!getByte(a + i, e2, ix2, sz2) || e2 != e || ix2 != i) seq = false;
    if (seq) return norm(iTrunc(fold(e), 8 * n));
  }
  Expr *r = iTrunc(acc, 8 * n);
  if (isC(r)) return nullptr;
  return r;
}
// ------------------------------------------------------------------------------------------------ child reporting
int g_pipe = -1;
struct Buf {
  std::string s;
  void u(u64 v) { s.append((char *)&v, 8); }
  void str(const std::string &x) { u(x.size()); s += x; }
};
Stats *g_shared;
std::string g_curMsg;
struct FnEnt { const char *name; uint8_t *flag; };
const FnEnt *g_fnBegin, *g_fnEnd;
uint8_t *g_fnShared;

void writeAll(const std::string &s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(g_pipe, s.data() + o, s.size() - o);
    if (n <= 0) _exit(4);
    o += n;
  }
}
[[noreturn]] void finish(const char *status, const char *msg) {
  g_active = false;
  st.paths = 1;
  st.maxEvents = g_idx;
  st.maxVars = g_vars.size();
  Buf b;
  b.str(status);
  b.str(msg);
  b.s.append((char *)&st, sizeof st);
  b.u(g_incomplete);
  b.str(g_incompleteWhy);
  b.u(g_vars.size());
  for (size_t i = 0; i < g_vars.size(); i++) {
    b.u((u64)(i64)g_vars[i]->cv);
    b.str(g_varinfo[i].name);
    b.u(g_varinfo[i].g);
  }
  b.u(g_out.size());
  for (auto &o : g_out) {
    b.u(o.m.size());
    for (auto x : o.m) b.u((u64)x);
    b.u(o.prefix);
    b.u(o.hash);
  }
  b.u(g_reached.size());
  for (auto &s : g_reached) b.str(s);
  b.u(g_leaks.size());
  for (auto &s : g_leaks) b.str(s);
  b.u(g_notes.size());
  for (auto &s : g_notes) b.str(s);
  b.u(g_splitsBy.size());
  for (auto &s : g_splitsBy) { b.str(s.first); b.u(s.second); }
  if (g_fnShared) for (const FnEnt *p = g_fnBegin; p < g_fnEnd; p++) if (*p->flag) g_fnShared[p - g_fnBegin] = 1;
  writeAll(b.s);
  _exit(0);
}
#define SITE ((u64)__builtin_return_address(0))
u64 siteRel(u64 a) { return a; }
}  // namespace

// ------------------------------------------------------------------------------------------------ instrumentation API
API void __sym_enter(void *self, uint32_t n) {
  if (__sym_callee != self) {
    for (uint32_t i = 0; i < n; i++) __sym_args[i] = nullptr;
  }
  __sym_callee = nullptr;
}
API Expr *__sym_bin(uint32_t op, uint32_t bits, Expr *sa, Expr *sb, u64 va, u64 vb) {
  if (!sa && !sb) return nullptr;
  u64 site = SITE;
  if (bits == 1) {
    Expr *a = toBool(sa, va, site), *b = toBool(sb, vb, site);
    switch (op) {
      case 28: return norm(bAnd(a, b));
      case 29: return norm(bOr(a, b));
      case 30: case 13: case 15: return norm(bXor(a, b));
      case 17: return norm(bAnd(a, b));
      default: splitAny(sa, site, "i1 op"); splitAny(sb, site, "i1 op"); return nullptr;
    }
  }
  Expr *a = toInt(sa, va, bits, site), *b = toInt(sb, vb, bits, site);
  if (isC(a) && isC(b)) return nullptr;
  i128 mn = smin(bits), mx = smax(bits);
  auto fits = [&](i128 lo, i128 hi) { return lo >= mn && hi <= mx; };
  switch (op) {
    case 13:  // add
      if (fits(a->lo + b->lo, a->hi + b->hi)) return norm(iAdd(a, b));
      return norm(mk(K_BVADD, bits, a, b, nullptr, mn, mx));
    case 15:
      if (a == b) return nullptr;
      if (fits(a->lo - b->hi, a->hi - b->lo)) return norm(iSub(a, b));
      return norm(mk(K_BVSUB, bits, a, b, nullptr, mn, mx));
    case 17: {
      if (bitlen(mag(a)) + bitlen(mag(b)) < 120) {
        i128 p[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi};
        if (fits(*std::min_element(p, p + 4), *std::max_element(p, p + 4))) return norm(iMul(a, b));
      }
      return norm(mk(K_BVMUL, bits, a, b, nullptr, mn, mx));
    }
    case 19:  // udiv
    case 22:  // urem
    {
      if (b->lo <= 0 && b->hi >= 0) decide(iEq(b, mkConst(0)), site);
      if (a->lo >= 0 && b->lo >= 0) {
        if (op == 19) return norm(mk(K_SDIV, 0, a, b, nullptr, 0, b->lo > 0 ? a->hi / b->lo : a->hi));
        return norm(mk(K_SREM, 0, a, b, nullptr, 0, std::min(a->hi, b->hi > 0 ? b->hi - 1 : a->hi)));
      }
      if (op == 19) return norm(mk(K_BVUDIV, bits, a, b, nullptr, mn, mx));
      if (b->lo > 0) return norm(mk(K_BVUREM, bits, a, b, nullptr, 0, b->hi - 1));
      return norm(mk(K_BVUREM, bits, a, b, nullptr, mn, mx));
    }
    case 20:
    case 23: {
      if (b->lo <= 0 && b->hi >= 0) decide(iEq(b, mkConst(0)), site);
      i128 m = mag(a);
      if (op == 20) return norm(iTrunc(mk(K_SDIV, 0, a, b, nullptr, -m, m), bits));
      i128 r = std::min(m, mag(b));
      return norm(mk(K_SREM, 0, a, b, nullptr, a->lo < 0 ? -r : 0, a->hi > 0 ? r : 0));
    }
    case 25:  // shl
      if (isC(b) && b->cv >= 0 && b->cv < bits) {
        int s = (int)b->cv;
        i128 lo = a->lo * ((i128)1 << s), hi = a->hi * ((i128)1 << s);
        if (bitlen(mag(a)) + s < 120 && fits(lo, hi)) return norm(iShlc(a, s));
      }
      return norm(mk(K_BVSHL, bits, a, b, nullptr, mn, mx));
    case 26:  // lshr
      if (isC(b) && a->lo >= 0 && b->cv >= 0 && b->cv < bits) return norm(iAshr(a, (int)b->cv));
      if (isC(b) && b->cv > 0 && b->cv < bits) return norm(mk(K_BVLSHR, bits, a, b, nullptr, 0, ((i128)1 << (bits - (int)b->cv)) - 1));
      return norm(mk(K_BVLSHR, bits, a, b, nullptr, mn, mx));
    case 27:
      if (isC(b) && b->cv >= 0 && b->cv < bits) return norm(iAshr(a, (int)b->cv));
      splitInt(b, site, "ashr amount");
      return norm(iAshr(a, (int)b->cv));
    case 28: {
      if (a == b) return norm(a);
      i128 lo, hi;
      if (a->lo >= 0 || b->lo >= 0) {
        lo = 0;
        hi = a->lo >= 0 && b->lo >= 0 ? std::min(a->hi, b->hi) : a->lo >= 0 ? a->hi : b->hi;
      } else { lo = -((i128)1 << (std::max(a->w, b->w) - 1)); hi = std::max(a->hi, b->hi); if (hi < 0) hi = -1; if (hi>=0) hi = ((i128)1 << (std::max(a->w, b->w) - 1)) - 1; }
      return norm(mk(K_AND, 0, a, b, nullptr, lo, hi));
    }
    case 29: case 30: {
      if (a == b) return op == 29 ? norm(a) : nullptr;
      int W = std::max(a->w, b->w);
      i128 lo = -((i128)1 << (W - 1)), hi = ((i128)1 << (W - 1)) - 1;
      if (a->lo >= 0 && b->lo >= 0) lo = 0;
      return norm(mk(op == 29 ? K_OR : K_XOR, 0, a, b, nullptr, lo, hi));
    }
  }
  splitAny(sa, site, "binop"); splitAny(sb, site, "binop");
  return nullptr;
}
API Expr *__sym_cmp(uint32_t p, uint32_t bits, Expr *sa, Expr *sb, u64 va, u64 vb) {
  if (!sa && !sb) return nullptr;
  u64 site = SITE;
  if (bits == 1) {
    Expr *a = toBool(sa, va, site), *b = toBool(sb, vb, site);
    switch (p) {
      case 32: return norm(bNot(bXor(a, b)));
      case 33: return norm(bXor(a, b));
      case 36: return norm(bAnd(bNot(a), b));  // ult
      case 34: return norm(bAnd(a, bNot(b)));  // ugt
      case 37: return norm(bOr(bNot(a), b));
      case 35: return norm(bOr(a, bNot(b)));
      default: splitAny(sa, site, "i1 cmp"); splitAny(sb, site, "i1 cmp"); return nullptr;
    }
  }
  Expr *a = toInt(sa, va, bits, site), *b = toInt(sb, vb, bits, site);
  if (isC(a) && isC(b)) return nullptr;
  switch (p) {
    case 32: return norm(iEq(a, b));
    case 33: return norm(bNot(iEq(a, b)));
    case 34: return norm(iUlt(b, a, bits));
    case 35: return norm(iUle(b, a, bits));
    case 36: return norm(iUlt(a, b, bits));
    case 37: return norm(iUle(a, b, bits));
    case 38: return norm(iSlt(b, a));
    case 39: return norm(iSle(b, a));
    case 40: return norm(iSlt(a, b));
    case 41: return norm(iSle(a, b));
  }
  return nullptr;
}
API Expr *__sym_cast(uint32_t op, uint32_t fb, uint32_t tb, Expr *s) {
  if (!s) return nullptr;
  u64 site = SITE;
  switch (op) {
    case 38: {  // trunc
      if (tb == 1) return norm(toBool(s, 0, site));
      if (s->cls == 2) return norm(iTrunc(toInt(s, 0, fb, site), tb));
      return norm(iTrunc(toInt(s, 0, fb, site), tb));
    }
    case 39:  // zext
      if (fb == 1) return norm(b2i(toBool(s, 0, site)));
      return norm(iZext(toInt(s, 0, fb, site), fb));
    case 40:  // sext
      if (fb == 1) { Expr *b = toBool(s, 0, site); return norm(iIte(b, mkConst(-1), mkConst(0))); }
      return norm(toInt(s, 0, fb, site));
    case 41: case 42: {  // fptoui, fptosi
      if (s->cls != 2) return nullptr;
      if (s->k == K_FIX) {
        Expr *x = fold(s->a);
        int g = s->imm;
        Expr *r;
        if (g <= 0) r = iShlc(x, -g);
        else r = x->lo >= 0 ? iAshr(x, g) : iIte(iSlt(x, mkConst(0)), iSub(mkConst(0), iAshr(iSub(mkConst(0), x), g)), iAshr(x, g));
        if (r->lo < smin(tb) || r->hi > (op == 41 ? ((i128)1 << tb) - 1 : smax(tb))) { splitAny(s, site, "fptosi range"); return nullptr; }
        return norm(op == 41 ? iTrunc(r, tb) : r);
      }
      // table: nested ite over distinct results
      Dom d = chooseDom({s}, site);
      if (d.at.empty()) return nullptr;
      std::map<Expr *, Vec> memo;
      auto v = evalF(s, d, memo);
      std::map<i128, std::vector<char>> groups;
      for (long t = 0; t < d.size; t++) {
        double x = (*v)[t];
        i128 k = std::isfinite(x) ? (i128)x : 0;
        auto &g = groups[k];
        if (g.empty()) g.assign(d.size, 0);
        g[t] = 1;
      }
      if (groups.size() > 64) { splitAny(s, site, "fptosi table"); return nullptr; }
      Expr *r = nullptr;
      i128 cur = (i128)s->fv;
      for (auto &kv : groups) {
        Expr *k = mkConst(sx(kv.first, tb));
        r = r ? iIte(mkPred(d, kv.second, kv.first == cur), k, r) : k;
      }
      return norm(r);
    }
    case 43: case 44: {  // uitofp sitofp
      Expr *x = fb == 1 ? b2i(toBool(s, 0, site)) : toInt(s, 0, fb, site);
      if (fb == 1 && op == 44) x = iSub(mkConst(0), x);
      if (op == 43) x = iZext(x, fb);
      if (isC(x)) return nullptr;
      if (mag(x) <= EXACT) return mkFix(x, 0, (double)x->cv);
      splitInt(x, site, "int to double beyond 2^53");
      return nullptr;
    }
    case 49:  // bitcast
      return s;
    default:
      splitAny(s, site, "cast");
      return nullptr;
  }
}
API Expr *__sym_fbin(uint32_t op, Expr *sa, Expr *sb, double va, double vb) {
  if (!sa && !sb) return nullptr;
  u64 site = SITE;
  if (sa && sa->cls != 2) { splitAny(sa, site, "int bits as double"); sa = nullptr; }
  if (sb && sb->cls != 2) { splitAny(sb, site, "int bits as double"); sb = nullptr; }
  return fbin(op, sa, sb, va, vb, site);
}
API Expr *__sym_fcmp(uint32_t p, Expr *sa, Expr *sb, double va, double vb) {
  if (!sa && !sb) return nullptr;
  u64 site = SITE;
  if (sa && sa->cls != 2) { splitAny(sa, site, "int bits as double"); sa = nullptr; }
  if (sb && sb->cls != 2) { splitAny(sb, site, "int bits as double"); sb = nullptr; }
  return norm(fcmpE(p, sa, sb, va, vb, site));
}
API Expr *__sym_fun(uint32_t op, Expr *s) {
  if (!s) return nullptr;
  u64 site = SITE;
  if (s->cls != 2) { splitAny(s, site, "int bits as double"); return nullptr; }
  return funE(op, s, site);
}
API Expr *__sym_ite(Expr *c, Expr *a, Expr *b, uint32_t bits, u64 va, u64 vb, uint32_t cv) {
  if (!c) return cv ? a : b;
  u64 site = SITE;
  c = toBool(c, cv, site);
  if (isC(c)) return cv ? a : b;
  auto dit = g_decided.find(c->k == K_NOT ? c->a : c);
  if (dit != g_decided.end()) return cv ? a : b;
  if (bits == 0 || (a && a->cls == 2) || (b && b->cls == 2)) {
    if ((a && a->cls != 2) || (b && b->cls != 2)) { decide(c, site); return cv ? a : b; }
    double x, y;
    memcpy(&x, &va, 8); memcpy(&y, &vb, 8);
    return fIteE(c, a, b, x, y, site);
  }
  if (bits == 1) return norm(bIte(c, toBool(a, va, site), toBool(b, vb, site)));
  return norm(iIte(c, toInt(a, va, bits, site), toInt(b, vb, bits, site)));
}
API void __sym_branch(Expr *c, uint32_t taken, uint32_t) {
  if (!c) return;
  if (c->cls != 1) fatal("branch on non-boolean shadow");
  if ((c->cv != 0) != (taken != 0)) fatal("shadow/concrete mismatch at branch");
  decide(c, SITE);
}
API void __sym_conc(Expr *s, uint32_t) { if (s) splitAny(s, SITE, "index/unsupported op"); }
API void __sym_conc_mem(void *p, uint32_t n) {
  if (!maybe((u64)p, n)) return;
  Expr *e; int ix, sz;
  for (uint32_t i = 0; i < n; i++) if (getByte((u64)p + i, e, ix, sz)) {
    if (((rawOf(e) >> (8 * ix)) & 255) != ((uint8_t *)p)[i]) continue;
    splitAny(e, SITE, "untracked type");
  }
}
API Expr *__sym_load(void *p, uint32_t n, u64 raw) { return maybe((u64)p, n) ? loadShadow((u64)p, n, raw, SITE) : nullptr; }
API void __sym_store_c(void *p, uint32_t n) { clearBytes((u64)p, n); }
API void __sym_store(void *p, uint32_t n, Expr *e, u64) {
  if (!e) { clearBytes((u64)p, n); return; }
  if (!g_active) return;
  if (n == 1 && e->cls == 1) e = b2i(e);
  for (uint32_t i = 0; i < n; i++) setByte((u64)p + i, e, i, n);
}
API void __sym_memcpy(void *d, void *s, u64 n, Expr *sn) {
  if (sn) splitAny(sn, SITE, "memcpy length");
  if (!n || !g_active) return;
  bool ms = maybe((u64)s, n), md = maybe((u64)d, n);
  if (!ms) { if (md) clearBytes((u64)d, n); return; }
  struct T { Expr *e; uint8_t ix, sz; };
  std::vector<T> t(n);
  Expr *e; int ix, sz;
  for (u64 i = 0; i < n; i++) if (getByte((u64)s + i, e, ix, sz)) t[i] = {e, (uint8_t)ix, (uint8_t)sz};
  if (md) clearBytes((u64)d, n);
  for (u64 i = 0; i < n; i++) if (t[i].e) setByte((u64)d + i, t[i].e, t[i].ix, t[i].sz);
}
API void __sym_memset(void *d, u64 n, Expr *sn, uint8_t, Expr *sv) {
  if (sn) splitAny(sn, SITE, "memset length");
  if (!n || !g_active) return;
  if (!sv) { clearBytes((u64)d, n); return; }
  for (u64 i = 0; i < n; i++) setByte((u64)d + i, sv, 0, 1);
}
API void __sym_byval(void *d, void *s, u64 n) {
  if (s && g_active) __sym_memcpy(d, s, n, nullptr);
  else clearBytes((u64)d, n);
}
API Expr *__sym_intr(uint32_t op, uint32_t bits, Expr *sa, Expr *sb, u64 va, u64 vb) {
  u64 site = SITE;
  Expr *a = toInt(sa, va, bits, site), *b = toInt(sb, vb, bits, site);
  switch (op) {
    case 1: return norm(iIte(iSlt(a, b), b, a));
    case 2: return norm(iIte(iSlt(a, b), a, b));
    case 3: return norm(iIte(iUlt(a, b, bits), b, a));
    case 4: return norm(iIte(iUlt(a, b, bits), a, b));
    case 5: return norm(iTrunc(iAbs(a), bits));
    case 6: {
      Expr *c = iUlt(a, b, bits);
      i128 lo = a->lo - b->hi, hi = a->hi - b->lo;
      if (a->lo >= 0 && b->lo >= 0) {
        Expr *d = iSub(a, b);
        (void)lo; (void)hi;
        return norm(iIte(c, mkConst(0), d));
      }
      splitAny(sa, site, "usub.sat"); splitAny(sb, site, "usub.sat");
      return nullptr;
    }
    case 7: if (isC(a)) return nullptr; return norm(mk(K_POPC, bits, a, nullptr, nullptr, 0, bits));
  }
  splitAny(sa, site, "intrinsic"); splitAny(sb, site, "intrinsic");
  return nullptr;
}
API Expr *__sym_extract(Expr *s, uint32_t, uint32_t) { return s; }

static const char *const kOpaque[] = {  // external functions allowed to see symbolic memory: their result is not part of any property
    "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
    "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc",
    "_ZNSt18_Rb_tree_", "_ZSt29_Rb_tree_insert_and_rebalance", "_ZSt18_Rb_tree_", "_ZNSt8__detail15_List_node_base", "_ZNSt15__exception_ptr","_ZSt28_Rb_tree",
    "_ZNSt9exception", "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt12out_of_range", "_ZNSt16invalid_argument", "__cxa_", "_ZNSt14overflow_error", "_ZNSt12domain_error","_ZNSt12length_error","_ZNSt11range_error","_ZNSt15underflow_error","_ZNSt8bad_cast","_ZNSt9bad_alloc","_ZNSt6localeC","_ZNSt6localeD","_ZNSt8ios_base","_ZNSt3_V214error_category", "_ZNSt8__detail20_Prime_rehash"};
API void __sym_post(void *callee, const char *name, uint32_t n, Expr **s, u64 *v, const char *kinds) {
  if (!g_active || __sym_ret_from == callee) return;
  bool opaque = false;
  for (auto *k : kOpaque) if (!strncmp(name, k, strlen(k))) opaque = true;
  for (uint32_t i = 0; i < n; i++) {
    if (kinds[i] == 'i') {
      if (s[i]) { g_leaks.insert(std::string("arg ") + name); splitAny(s[i], SITE, name); }
    } else if (!opaque) {
      u64 p = v[i];
      if (p < 4096 || !maybe(p, 32)) continue;
      Expr *e; int ix, sz;
      for (int k = 0; k < 32; k++) if (getByte(p + k, e, ix, sz)) {
        if (((rawOf(e) >> (8 * ix)) & 255) != *(uint8_t *)(p + k)) continue;
        g_leaks.insert(std::string("mem ") + name);
        splitAny(e, SITE, name);
      }
    }
  }
}
// ------------------------------------------------------------------------------------------------ libm models
#define RET(x) do { __sym_ret[0] = (x); } while (0)
#define UN(name, op) API double __symw_##name(double x) { Expr *a = __sym_callee == (void*)&__symw_##name ? __sym_args[0] : nullptr; __sym_callee = nullptr; \
  double r = funv(op, x); RET(a ? (a->cls == 2 ? funE(op, a, SITE) : (splitAny(a, SITE, #name), nullptr)) : nullptr); __sym_ret_from = (void*)&__symw_##name; return r; }
UN(sqrt, 2) UN(fabs, 1) UN(floor, 3) UN(ceil, 4) UN(trunc, 5) UN(round, 6) UN(rint, 7) UN(sin, 10) UN(cos, 11) UN(exp, 12) UN(log, 13)
UN(tan, 14) UN(atan, 15) UN(asin, 16) UN(acos, 17) UN(sinh, 18) UN(cosh, 19) UN(tanh, 20) UN(log10, 21)
#define BI(name, op) API double __symw_##name(double x, double y) { bool ok = __sym_callee == (void*)&__symw_##name; Expr *a = ok ? __sym_args[0] : nullptr, *b = ok ? __sym_args[1] : nullptr; __sym_callee = nullptr; \
  double r = fopv(op, x, y); RET(__sym_fbin(op, a, b, x, y)); __sym_ret_from = (void*)&__symw_##name; return r; }
BI(atan2, 1004) BI(pow, 1003) BI(fmod, 1006) BI(hypot, 1005) BI(fmin, 1000) BI(fmax, 1001)
API long __symw_lround(double x) {
  Expr *a = __sym_callee == (void *)&__symw_lround ? __sym_args[0] : nullptr; __sym_callee = nullptr;
  RET(a ? __sym_cast(42, 64, 64, funE(6, a, SITE)) : nullptr); __sym_ret_from = (void *)&__symw_lround; return lround(x);
}
API long __symw_lrint(double x) {
  Expr *a = __sym_callee == (void *)&__symw_lrint ? __sym_args[0] : nullptr; __sym_callee = nullptr;
  RET(a ? __sym_cast(42, 64, 64, funE(7, a, SITE)) : nullptr); __sym_ret_from = (void *)&__symw_lrint; return lrint(x);
}
API int *__symw_errno() { __sym_ret_from = (void *)&__symw_errno; return &errno; }
// fresh memory carries no shadow of its previous use
API void *__symw_new(size_t n) {
  Expr *e = __sym_callee == (void *)&__symw_new ? __sym_args[0] : nullptr; __sym_callee = nullptr;
  if (e) splitAny(e, SITE, "allocation size");
  void *p = ::operator new(n); clearBytes((u64)p, n); __sym_ret[0] = nullptr; __sym_ret_from = (void *)&__symw_new; return p;
}
API void *__symw_malloc(size_t n) {
  Expr *e = __sym_callee == (void *)&__symw_malloc ? __sym_args[0] : nullptr; __sym_callee = nullptr;
  if (e) splitAny(e, SITE, "allocation size");
  void *p = malloc(n); if (p) clearBytes((u64)p, n); __sym_ret[0] = nullptr; __sym_ret_from = (void *)&__symw_malloc; return p;
}
API void *__symw_memcpy(void *d, const void *s, size_t n) {
  Expr *e = __sym_callee == (void *)&__symw_memcpy ? __sym_args[0] : nullptr; __sym_callee = nullptr;
  __sym_memcpy(d, (void *)s, n, e); __sym_ret_from = (void *)&__symw_memcpy; return memcpy(d, s, n);
}
API void *__symw_memmove(void *d, const void *s, size_t n) {
  Expr *e = __sym_callee == (void *)&__symw_memmove ? __sym_args[0] : nullptr; __sym_callee = nullptr;
  __sym_memcpy(d, (void *)s, n, e); __sym_ret_from = (void *)&__symw_memmove; return memmove(d, s, n);
}
API void *__symw_memset(void *d, int c, size_t n) {
  bool ok = __sym_callee == (void *)&__symw_memset; Expr *v = ok ? __sym_args[0] : nullptr, *e = ok ? __sym_args[1] : nullptr; __sym_callee = nullptr;
  if (v) { splitAny(v, SITE, "memset value"); }
  __sym_memset(d, n, e, c, nullptr); __sym_ret_from = (void *)&__symw_memset; return memset(d, c, n);
}
// ------------------------------------------------------------------------------------------------ harness API
static std::vector<i64> g_replayVals;
static Expr *newVar(const char *name, i64 lo, i64 hi, int g, bool fp, i64 &val) {
  size_t i = g_vars.size();
  val = i < g_model.size() ? g_model[i] : lo;
  if (val < lo || val > hi) val = lo;
  g_varinfo.push_back({name, lo, hi, g, fp});
  if (lo == hi) { Expr *c = mkConst(lo); g_vars.push_back(c); return nullptr; }
  Expr *e = alloc();
  e->k = K_VAR; e->cls = 0; e->imm = (int)i; e->lo = lo; e->hi = hi; e->cv = val; e->id = g_nextid++;
  e->w = nwidth(lo, hi);
  char nm[32];
  snprintf(nm, sizeof nm, "v%zu", i);
  e->ast = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bvsort(e->w));
  g_vars.push_back(e);
  if (lo != smin(e->w)) assertz(Z3_mk_bvsge(Z, e->ast, bvconst(lo, e->w)));
  if (hi != smax(e->w)) assertz(Z3_mk_bvsle(Z, e->ast, bvconst(hi, e->w)));
  return e;
}
API i64 sym_int(const char *name, i64 lo, i64 hi) {
  if (__sym_callee == (void *)&sym_int)  // bounds that depend on other inputs are split completely
    for (int k = 0; k <= 1; k++) if (Expr *b = __sym_args[k]) splitAny(b, SITE, nullptr);
  __sym_callee = nullptr;
  i64 v; Expr *e = newVar(name, lo, hi, 0, false, v);
  RET(e); __sym_ret_from = (void *)&sym_int;
  return v;
}
API bool sym_bool(const char *name) {
  __sym_callee = nullptr;
  i64 v; Expr *e = newVar(name, 0, 1, 0, false, v);
  RET(norm(iEq(e, mkConst(1)))); __sym_ret_from = (void *)&sym_bool;
  return v;
}
API double sym_grid(const char *name, i64 lo, i64 hi, int g) {
  if (__sym_callee == (void *)&sym_grid)  // bounds that depend on other inputs are split completely
    for (int k = 0; k <= 1; k++) if (Expr *b = __sym_args[k]) splitAny(b, SITE, nullptr);
  __sym_callee = nullptr;
  i64 v; Expr *e = newVar(name, lo, hi, g, true, v);
  double d = ldexp((double)v, -g);
  RET(e ? mkFix(e, g, d) : nullptr); __sym_ret_from = (void *)&sym_grid;
  return d;
}
API void sym_assume(bool c) {
  Expr *s = __sym_callee == (void *)&sym_assume ? __sym_args[0] : nullptr; __sym_callee = nullptr;
  if (s) decide(toBool(s, c, SITE), SITE);
  if (!c) { st.assumeFail = 1; finish("ASSUME", ""); }
  __sym_ret_from = (void *)&sym_assume;
}
API void sym_check(bool c, const char *msg) {
  Expr *s = __sym_callee == (void *)&sym_check ? __sym_args[0] : nullptr; __sym_callee = nullptr;
  st.checks++;
  if (s) { g_inCheck = true; decide(toBool(s, c, SITE), SITE); g_inCheck = false; }
  if (!c) finish("VIOLATION", msg);
  __sym_ret_from = (void *)&sym_check;
}
API void sym_reach(const char *l) { g_reached.insert(l); __sym_ret_from = (void *)&sym_reach; }
API void sym_note(const char *l) { g_notes.insert(l); __sym_ret_from = (void *)&sym_note; }
API i64 sym_concrete(i64 v) {
  Expr *s = __sym_callee == (void *)&sym_concrete ? __sym_args[0] : nullptr; __sym_callee = nullptr;
  if (s) splitAny(s, SITE, nullptr);
  RET(nullptr); __sym_ret_from = (void *)&sym_concrete;
  return v;
}
API i64 sym_param(const char *name, i64 def) {
  __sym_callee = nullptr;
  std::string k = std::string("SYMP_") + name;
  const char *v = getenv(k.c_str());
  RET(nullptr); __sym_ret_from = (void *)&sym_param;
  return v ? atoll(v) : def;
}
// ---- coroutine threads
static ucontext_t g_mainCtx, g_thrCtx[8];
static bool g_thrDone[8];
static int g_thrCur = -1, g_thrN = 0, g_switches, g_maxSwitches, g_noPreempt = 0;
static void (*g_thrFn)(int, void *);
static void *g_thrArg;
static void thrMain(int i) {
  g_thrFn(i, g_thrArg);
  g_thrDone[i] = true;
  swapcontext(&g_thrCtx[i], &g_mainCtx);
}
static i64 schedChoice(const char *nm, int n) {  // symbolic scheduling decision, split completely
  i64 v; Expr *e = newVar(nm, 0, n - 1, 0, false, v);
  if (e) splitInt(e, (u64)&schedChoice, nullptr);
  return v;
}
API void __sym_yield() {
  if (g_thrCur < 0 || g_noPreempt) return;
  int alive = 0;
  for (int i = 0; i < g_thrN; i++) alive += !g_thrDone[i];
  if (alive <= 1 || g_switches >= g_maxSwitches) return;
  if (schedChoice("preempt", 2)) { g_switches++; swapcontext(&g_thrCtx[g_thrCur], &g_mainCtx); }
}
// registered shared objects: words that can change, and what they point to, are the memory threads interfere on
struct SharedWord { u64* at; u64 was; };
static std::vector<SharedWord> g_sharedWords;
static std::set<u64> g_published;
static bool sharedAccess(const void* a, int w) {
  u64 x = (u64)a;
  bool hit = false;
  for (auto& s : g_sharedWords) {
    u64 cur = *s.at;
    if (cur != s.was && cur > 4096) g_published.insert(cur);
    if ((x & ~7ull) == (u64)s.at) hit |= w || cur != s.was;
  }
  if (hit) return true;
  auto it = g_published.upper_bound(x);
  return it != g_published.begin() && x - *std::prev(it) < 24;
}
API void sym_shared(void* p, size_t n) {
  for (size_t i = 0; i + 8 <= n; i += 8) g_sharedWords.push_back({(u64*)((char*)p + i), *(u64*)((char*)p + i)});
  __sym_ret_from = (void *)&sym_shared;
}
API void *__sym_new(size_t n) { void *p = malloc(n + 64); if (g_active) clearBytes((u64)p, n); return p; }
API void __sym_delete(void *p) { if (!p) return; size_t n = malloc_usable_size(p); memset(p, 0xdb, n); if (g_active) clearBytes((u64)p, n); }
API void __sym_delete_n(void *p, size_t) { __sym_delete(p); }
API void __sym_yield_mem(const void* a, int w) {
  if (g_thrCur < 0 || g_noPreempt || !sharedAccess(a, w)) return;
  if (g_trace) {
    fprintf(stderr, "Y %u %d", (unsigned)getpid(), w);
    for (auto& x : g_sharedWords) if (((u64)a & ~7ull) == (u64)x.at) fprintf(stderr, " word %d was %llx now %llx", int(&x - &g_sharedWords[0]), (unsigned long long)x.was, (unsigned long long)*x.at);
    for (auto q : g_published) fprintf(stderr, " pub+%lld", (long long)((u64)a - q));
    Dl_info d; u64 site = (u64)__builtin_return_address(0); dladdr((void*)site, &d); fprintf(stderr, " at %llx\n", (unsigned long long)(site - (u64)d.dli_fbase));
  }
  __sym_yield();
}
API void sym_nopreempt(int d) { g_noPreempt += d; __sym_ret_from = (void *)&sym_nopreempt; }
API void sym_threads(int n, void (*fn)(int, void *), void *arg, int maxSwitches) {
  g_thrN = n; g_thrFn = fn; g_thrArg = arg; g_switches = 0; g_maxSwitches = maxSwitches;
  for (int i = 0; i < n; i++) {
    g_thrDone[i] = false;
    getcontext(&g_thrCtx[i]);
    g_thrCtx[i].uc_stack.ss_sp = malloc(1 << 18);
    g_thrCtx[i].uc_stack.ss_size = 1 << 18;
    g_thrCtx[i].uc_link = &g_mainCtx;
    makecontext(&g_thrCtx[i], (void (*)())thrMain, 1, i);
  }
  int last = -1;
  while (true) {
    std::vector<int> al;
    for (int i = 0; i < n; i++) if (!g_thrDone[i] && i != last) al.push_back(i);
    if (al.empty()) { if (last >= 0 && !g_thrDone[last]) al.push_back(last); else break; }
    int pick = al.size() == 1 ? al[0] : al[schedChoice("sched", al.size())];
    g_thrCur = pick; last = pick;
    swapcontext(&g_mainCtx, &g_thrCtx[pick]);
    g_thrCur = -1;
    if (g_thrDone[pick]) last = -1;
  }
  __sym_ret_from = (void *)&sym_threads;
}

// ------------------------------------------------------------------------------------------------ explorer
struct Child { pid_t pid; int fd; std::string buf; double start; Work w; };
static void runChild(const Work &w, int fd, void (*h)()) {
  g_pipe = fd;
  g_model = w.model;
  g_prefix = w.prefix;
  g_expect = w.hash;
  g_idx = 0; g_hash = 1;
  memset(&st, 0, sizeof st);
  g_active = true;
  std::set_terminate([] { finish("CRASH", "std::terminate / uncaught exception"); });
  try {
    h();
  } catch (const std::exception &e) {
    std::string m = std::string("uncaught exception: ") + e.what();
    finish("CRASH", m.c_str());
  } catch (...) {
    finish("CRASH", "uncaught exception");
  }
  finish("OK", "");
}
static void onSig(int s) {
  char b[64];
  snprintf(b, sizeof b, "signal %d (%s)", s, strsignal(s));
  finish("CRASH", b);
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
API int symrt_main(int argc, char **argv, void (*h)(), const void *fb, const void *fe) {
  int jobs = 8;
  double budget = 600;
  double perPath = 60;
  std::string out = "/dev/stdout";
  bool verbose = false;
  long maxViol = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--per-path") perPath = atof(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else if (a == "--max-violations") maxViol = atol(argv[++i]);
    else if (a == "-v") verbose = true;
  }
  g_fnBegin = (const FnEnt *)fb; g_fnEnd = (const FnEnt *)fe;
  size_t nf = g_fnEnd - g_fnBegin;
  if (nf) g_fnShared = (uint8_t *)mmap(nullptr, nf, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (const FnEnt *p = g_fnBegin; p < g_fnEnd; p++) *p->flag = 0;
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  SOL = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, (g_trace = getenv("SYM_TRACE") != nullptr, getenv("SYM_LOGIC")) ? getenv("SYM_LOGIC") : "QF_BV"));
  Z3_solver_inc_ref(Z, SOL);
  signal(SIGPIPE, SIG_IGN);
  std::deque<Work> q;
  q.push_back({{}, 0, 0, 0});
  std::vector<Child> run;
  Stats tot;
  memset(&tot, 0, sizeof tot);
  std::map<std::string, u64> reached, leaks, notes, splits, incompl;
  struct Viol { std::string status, msg; std::vector<std::pair<std::string, i64>> in; std::vector<int> g; };
  std::vector<Viol> viol, samples;
  u64 okPaths = 0;
  bool timeout = false, stop = false;
  double t0 = now(), lastp = t0;
  char *altbase = (char *)malloc(1 << 16);
  while ((!q.empty() && !stop) || !run.empty()) {
    while (!q.empty() && !stop && (int)run.size() < jobs) {
      Work w = std::move(q.back());
      q.pop_back();
      int p[2];
      if (pipe(p)) { perror("pipe"); return 3; }
      fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
      pid_t pid = fork();
      if (pid == 0) {
        for (auto &c : run) close(c.fd);
        close(p[0]);
        stack_t ss{}; ss.ss_sp = altbase; ss.ss_size = 1 << 16; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK;
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
        int dn = open("/dev/null", O_WRONLY);
        if (!verbose) { dup2(dn, 1); dup2(dn, 2); }
        rlimit rl{(rlim_t)3 << 30, (rlim_t)3 << 30};
        setrlimit(RLIMIT_AS, &rl);
        runChild(w, p[1], h);
      }
      if (pid < 0) { perror("fork"); return 3; }
      close(p[1]);
      run.push_back({pid, p[0], "", now(), std::move(w)});
    }
    std::vector<pollfd> pf;
    for (auto &c : run) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    double t = now();
    for (size_t i = 0; i < run.size();) {
      Child &c = run[i];
      bool eof = false;
      if (pf[i].revents) {
        char b[65536];
        ssize_t n = read(c.fd, b, sizeof b);
        if (n > 0) c.buf.append(b, n);
        else eof = true;
      }
      bool killed = false;
      if (!eof && (t - c.start > perPath || stop)) { kill(c.pid, SIGKILL); eof = true; killed = true; }
      if (!eof) { i++; continue; }
      close(c.fd);
      int status;
      waitpid(c.pid, &status, 0);
      if (killed && !stop) {
        viol.push_back({"HANG", "path does not terminate within the per-path limit", {}, {}});
        for (size_t k = 0; k < c.w.model.size(); k++) { viol.back().in.push_back({"v" + std::to_string(k), c.w.model[k]}); viol.back().g.push_back(0); }
        if ((long)viol.size() >= maxViol) stop = true;
      } else if (!killed) {
        const char *p = c.buf.data(), *e = p + c.buf.size();
        auto u = [&]() -> u64 { if (p + 8 > e) return 0; u64 v; memcpy(&v, p, 8); p += 8; return v; };
        auto s = [&]() { u64 n = u(); std::string r(p, std::min<u64>(n, e - p)); p += r.size(); return r; };
        if (c.buf.empty()) {
          incompl["child died (status " + std::to_string(status) + ")"]++;
        } else {
          std::string stt = s(), msg = s();
          Stats cs; memcpy(&cs, p, sizeof cs); p += sizeof cs;
          u64 *a = (u64 *)&tot, *b = (u64 *)&cs;
          u64 me = std::max(tot.maxEvents, cs.maxEvents), mv = std::max(tot.maxVars, cs.maxVars);
          double sol = tot.solver + cs.solver;
          for (size_t k = 0; k < offsetof(Stats, solver) / 8; k++) a[k] += b[k];
          tot.maxEvents = me; tot.maxVars = mv; tot.solver = sol;
          bool inc = u();
          std::string why = s();
          if (inc) incompl[why]++;
          u64 nv = u();
          Viol vi; vi.status = stt; vi.msg = msg;
          for (u64 k = 0; k < nv; k++) { i64 val = (i64)u(); std::string nm = s(); int g = (int)u(); vi.in.push_back({nm, val}); vi.g.push_back(g); }
          u64 no = u();
          for (u64 k = 0; k < no; k++) {
            Work w;
            u64 nm = u();
            for (u64 m = 0; m < nm; m++) w.model.push_back((i64)u());
            w.prefix = u(); w.hash = u();
            q.push_back(std::move(w));
          }
          for (u64 k = u(); k > 0; k--) reached[s()]++;
          for (u64 k = u(); k > 0; k--) leaks[s()]++;
          for (u64 k = u(); k > 0; k--) notes[s()]++;
          for (u64 k = u(); k > 0; k--) { std::string nm = s(); splits[nm] += u(); }
          if (stt == "VIOLATION" || stt == "CRASH") { viol.push_back(vi); if ((long)viol.size() >= maxViol) stop = true; }
          else if (stt == "OK") {
            okPaths++;
            if ((okPaths & (okPaths - 1)) == 0 || (okPaths % 97 == 0 && samples.size() < 40)) samples.push_back(vi);
          }
          else if (stt == "DIVERGED" || stt == "ENGINE") incompl[stt + ": " + msg]++;
        }
      }
      run[i] = std::move(run.back());
      pf[i] = pf[run.size() - 1];
      run.pop_back();
    }
    if (t - t0 > budget && !stop) { timeout = true; stop = true; }
    if (verbose || t - lastp > 10) {
      if (t - lastp > 5) { fprintf(stderr, "[%.0fs] paths %lu queue %zu queries %lu\n", t - t0, tot.paths, q.size(), tot.queries); lastp = t; }
    }
  }
  FILE *f = fopen(out.c_str(), "w");
  if (!f) return 3;
  fprintf(f, "{\"paths\":%lu,\"events\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"assume_cut\":%lu,\"splits\":%lu,\"split_values\":%lu,\"checks\":%lu,\"check_unsat\":%lu,\"stale\":%lu,\"tables\":%lu,\"diverged\":%lu,\"max_events\":%lu,\"max_vars\":%lu,\"nonlinear_refined\":%lu,\"second_solver\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"timeout\":%s,\"queue_left\":%zu,\n",
          tot.paths, tot.events, tot.queries, tot.sat, tot.unsat, tot.unknown, tot.assumeFail, tot.splits, tot.splitValues, tot.checks, tot.checkQueriesUnsat, tot.stale, tot.tabs, tot.diverged, tot.maxEvents, tot.maxVars, tot.refined, tot.second, tot.solver, now() - t0, timeout ? "true" : "false", q.size());
  auto mp = [&](const char *n, std::map<std::string, u64> &m) {
    fprintf(f, "\"%s\":{", n);
    bool first = true;
    for (auto &kv : m) { fprintf(f, "%s%s:%lu", first ? "" : ",", jstr(kv.first).c_str(), kv.second); first = false; }
    fprintf(f, "},\n");
  };
  mp("reached", reached); mp("leaks", leaks); mp("notes", notes); mp("splits_by", splits); mp("incomplete", incompl);
  fprintf(f, "\"functions\":[");
  std::set<std::string> fns;
  for (size_t i = 0; i < nf; i++) if (g_fnShared[i]) fns.insert(g_fnBegin[i].name);
  bool first = true;
  for (auto &s : fns) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
  fprintf(f, "],\n\"ok_paths\":%lu", okPaths);
  for (int which = 0; which < 2; which++) {
  fprintf(f, ",\n\"%s\":[", which ? "violations" : "samples");
  first = true;
  for (auto &v : which ? viol : samples) {
    fprintf(f, "%s{\"status\":%s,\"msg\":%s,\"inputs\":[", first ? "" : ",", jstr(v.status).c_str(), jstr(v.msg).c_str());
    for (size_t i = 0; i < v.in.size(); i++) fprintf(f, "%s[%s,%ld,%d]", i ? "," : "", jstr(v.in[i].first).c_str(), v.in[i].second, v.g[i]);
    fprintf(f, "]}");
    first = false;
  }
  fprintf(f, "]");
  }
  fprintf(f, "}\n");
  fclose(f);
  return 0;
}
