// Harness-side API of the symbolic execution engine (also implemented by the plain replay runtime).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
// symbolic inputs (inclusive bounds)
int64_t sym_int(const char* name, int64_t lo, int64_t hi);
bool sym_bool(const char* name);
// k / 2^g with k in [lo,hi]
double sym_grid(const char* name, int64_t lo, int64_t hi, int g);
void sym_assume(bool c);
void sym_check(bool c, const char* msg);
void sym_reach(const char* label);   // vacuity witness: must be reached by at least one path
int64_t sym_param(const char* name, int64_t def);  // concrete bound chosen by the runner
int64_t sym_concrete(int64_t v);     // complete split on the value
void sym_note(const char* msg);      // known finding encountered on this path (listed specifically)
// coroutine threads (concurrency harnesses): runs fns under every interleaving at yield points
void sym_threads(int n, void (*fn)(int, void*), void* arg, int max_switches);
void sym_nopreempt(int d);           // +1 / -1: enter / leave a region that no other thread may interrupt
void sym_shared(void* p, size_t n);     // threads interfere on this object and on what its changing words point to
void sym_harness();
}
