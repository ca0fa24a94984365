#include <malloc.h>
#include <string.h>
#include <set>
#include <iterator>
// Plain (uninstrumented) runtime: replays one recorded input assignment against the real code.
// exit 0 = all checks passed, 10 = check failed, 11 = crash/uncaught exception, 12 = assumption not met, 13 = input mismatch
#include "sym.h"
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <vector>
struct In { std::string name; int64_t v; int g; };
static std::vector<In> in;
static size_t pos;
static std::string und(std::string s) { for (auto& c : s) if (c == ' ') c = '_'; return s; }
static FILE* out = stdout;
static void say(const char* k, const char* m) { fprintf(out, "%s %s\n", k, m); fflush(out); }
static int64_t next(const char* name, int64_t lo, int64_t hi) {
  if (pos >= in.size() || in[pos].name != und(name) || in[pos].v < lo || in[pos].v > hi) {
    fprintf(out, "MISMATCH at input %zu (%s)\n", pos, name); fflush(out); _exit(13);
  }
  return in[pos++].v;
}
extern "C" {
int64_t sym_int(const char* n, int64_t lo, int64_t hi) { return next(n, lo, hi); }
bool sym_bool(const char* n) { return next(n, 0, 1); }
double sym_grid(const char* n, int64_t lo, int64_t hi, int g) { return ldexp((double)next(n, lo, hi), -g); }
void sym_assume(bool c) { if (!c) { say("ASSUME", ""); _exit(12); } }
void sym_check(bool c, const char* m) { if (!c) { say("CHECK-FAILED", m); _exit(10); } }
void sym_reach(const char* l) { say("reach", l); }
void sym_note(const char* m) { say("note", m); }
int64_t sym_concrete(int64_t v) { return v; }
int64_t sym_param(const char* name, int64_t def) { const char* v = getenv((std::string("SYMP_") + name).c_str()); return v ? atoll(v) : def; }
static ucontext_t mainCtx, thr[8];
static bool done_[8];
static int cur = -1, N, sw, maxsw, noPreempt = 0;
void sym_nopreempt(int d) { noPreempt += d; }
static void (*FN)(int, void*);
static void* ARG;
static void tmain(int i) { FN(i, ARG); done_[i] = true; swapcontext(&thr[i], &mainCtx); }
__attribute__((visibility("default"))) void __sym_yield() {
  if (cur < 0 || noPreempt) return;
  int alive = 0;
  for (int i = 0; i < N; i++) alive += !done_[i];
  if (alive <= 1 || sw >= maxsw) return;
  if (next("preempt", 0, 1)) { sw++; swapcontext(&thr[cur], &mainCtx); }
}
// registered shared objects: words that can change, and what they point to, are the memory threads interfere on
struct SharedWord { uint64_t* at; uint64_t was; };
static std::vector<SharedWord> g_shared;
static std::set<uint64_t> g_published;
static bool sharedAccess(const void* a, int w) {
  uint64_t x = (uint64_t)a;
  bool hit = false;
  for (auto& s : g_shared) {
    uint64_t cur = *s.at;
    if (cur != s.was && cur > 4096) g_published.insert(cur);
    if ((x & ~7ull) == (uint64_t)s.at) hit |= w || cur != s.was;
  }
  if (hit) return true;
  auto it = g_published.upper_bound(x);
  return it != g_published.begin() && x - *std::prev(it) < 24;
}
void sym_shared(void* p, size_t n) { for (size_t i = 0; i + 8 <= n; i += 8) g_shared.push_back({(uint64_t*)((char*)p + i), *(uint64_t*)((char*)p + i)}); }
void* __sym_new(size_t n) { return malloc(n + 64); }
void __sym_delete(void* p) { if (p) memset(p, 0xdb, malloc_usable_size(p)); }
void __sym_delete_n(void* p, size_t) { __sym_delete(p); }
__attribute__((visibility("default"))) void __sym_yield_mem(const void* a, int w) {
  if (cur < 0 || noPreempt || !sharedAccess(a, w)) return;
  __sym_yield();
}
void sym_threads(int n, void (*fn)(int, void*), void* arg, int ms) {
  N = n; FN = fn; ARG = arg; sw = 0; maxsw = ms;
  for (int i = 0; i < n; i++) {
    done_[i] = false;
    getcontext(&thr[i]);
    thr[i].uc_stack.ss_sp = malloc(1 << 18); thr[i].uc_stack.ss_size = 1 << 18; thr[i].uc_link = &mainCtx;
    makecontext(&thr[i], (void (*)())tmain, 1, i);
  }
  int last = -1;
  while (true) {
    std::vector<int> al;
    for (int i = 0; i < n; i++) if (!done_[i] && i != last) al.push_back(i);
    if (al.empty()) { if (last >= 0 && !done_[last]) al.push_back(last); else break; }
    int pick = al.size() == 1 ? al[0] : al[next("sched", 0, (int64_t)al.size() - 1)];
    cur = pick; last = pick;
    swapcontext(&mainCtx, &thr[pick]);
    cur = -1;
    if (done_[pick]) last = -1;
  }
}
}
static void sig(int s) { char b[64]; int n = snprintf(b, sizeof b, "CRASH signal %d\n", s); (void)!write(1, b, n); _exit(11); }
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  FILE* f = fopen(argv[1], "r");
  if (!f) return 2;
  char nm[256]; long v; int g;
  while (fscanf(f, "%255s %ld %d", nm, &v, &g) == 3) in.push_back({nm, v, g});
  fclose(f);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, sig);
  try { sym_harness(); } catch (std::exception& e) { say("CRASH uncaught exception", e.what()); return 11; } catch (...) { say("CRASH", "uncaught exception"); return 11; }
  say("PASS", "");
  _exit(0);
}
