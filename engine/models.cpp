// C library models, compiled with the instrumentation pass so that they are executed symbolically.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#define NB __attribute__((no_builtin, noinline))
extern "C" {
NB int __symw_memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
NB size_t __symw_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
NB int __symw_strcmp(const char* a, const char* b) {
  while (*a && *a == *b) { a++; b++; }
  unsigned char x = *a, y = *b;
  return x == y ? 0 : x < y ? -1 : 1;
}
NB void* __symw_memchr(const void* s, int c, size_t n) {
  const unsigned char* x = (const unsigned char*)s;
  for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i);
  return nullptr;
}
NB size_t __symw_hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* x = (const unsigned char*)p;
  size_t h = seed ^ n;
  for (size_t i = 0; i < n; i++) h = h * 31 + x[i];
  return h;
}
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
NB long __symw_strtol(const char* s, char** end, int base) {
  const char* p = s;
  while (sp(*p)) p++;
  bool neg = false;
  if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  if (base == 0) base = 10;
  long v = 0; bool any = false;
  while (true) {
    char c = *p; int d;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10;
    else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10;
    else break;
    if (d >= base) break;
    v = v * base + d; any = true; p++;
  }
  if (end) *end = (char*)(any ? p : s);
  return neg ? -v : v;
}
NB double __symw_strtod(const char* s, char** end) {
  // decimal notation [+-]digits[.digits]; other spellings (exponent, hex, inf, nan) handled by the C library
  const char* p = s;
  while (sp(*p)) p++;
  bool neg = false;
  if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  double v = 0; bool any = false;
  int64_t m = 0, sc = 1; int nd = 0;
  while (*p >= '0' && *p <= '9' && nd < 15) { m = m * 10 + (*p - '0'); any = true; p++; nd++; }
  if (*p == '.') {
    const char* q = p + 1; bool anyf = false;
    while (*q >= '0' && *q <= '9' && nd < 15) { m = m * 10 + (*q - '0'); sc *= 10; anyf = true; q++; nd++; }
    if (any || anyf) { p = q; any = true; }
  }
  if (!any) { if (end) *end = (char*)s; return 0.; }
  v = (double)m / (double)sc;   // exact: both below 2^53, division correctly rounded
  if (end) *end = (char*)p;
  return neg ? -v : v;
}
}
