// Called from instrumented library code at every basic-block edge: counts the
// edges reached and offers the scheduler a preemption point.
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <time.h>
#include "core.h"
extern "C" void simPreempt();
// Work of the library in steps: basic-block edges, and bytes moved or scanned by the 16.
uint64_t libWork = 0, libWorkLimit = UINT64_MAX;
static void workExceeded() {
  libWorkLimit = UINT64_MAX;
  Seam s;
  violation(asProp ? asProp : "*", "hang:work", fmt("call %d %s still works after %llu steps without doing anything else", me ? me->curOp : 0, curOpPtr() ? curOpPtr()->what.substr(0, 200).c_str() : "", (unsigned long long)libWork));
}
static inline void moved(size_t n) { if (inLib) { libWork += n >> 4; if (libWork > libWorkLimit) workExceeded(); } }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  static uint32_t n = 0;
  if (a == b || *a) return;
  for (uint32_t *x = a; x < b; x++) *x = ++n;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!*g || !slot) return;
  if (inLib && ++libWork > libWorkLimit) workExceeded();
  uint32_t i = *g;
  if (i < sizeof(slot->edges) * 8) slot->edges[i >> 3] |= (uint8_t)(1u << (i & 7));
  simPreempt();
}

// Accesses to static objects: an object that library code has written in this run can be
// shared by clients that do not know each other, so the scheduler likes to switch there.
extern "C" void simTouch(uintptr_t where);
extern "C" char __data_start, _end;
static const int MAXW = 256;
static uintptr_t written[MAXW];
static int nWritten = 0;
bool touchedStatics() { return nWritten > 0; }
void forgetStatics() { nWritten = 0; }
static bool isWritten(uintptr_t a, uintptr_t b) { for (int i = 0; i < nWritten; i++) if (written[i] >= a && written[i] <= b) return true; return false; }
__attribute__((noinline)) static void touch(uintptr_t p, size_t n, bool write) {
  if (!W || !W->multi || !inLib || !me || me->noPreempt) return;
  uintptr_t a = p >> 3, b = (p + (n ? n - 1 : 0)) >> 3;
  if (write) { for (uintptr_t x = a; x <= b && nWritten < MAXW; x++) if (!isWritten(x, x)) written[nWritten++] = x; }
  else if (!nWritten || !isWritten(a, b)) return;
  simTouch(a);
}
// The same for the memory of objects that a scenario gives to several threads on purpose.
// Their addresses are replaced by a number that is the same in every execution of a run.
static const int MAXS = 96;
static struct { uintptr_t a, e; } shared[MAXS];
static int nShared = 0;
static uintptr_t sharedLo, sharedHi;
bool recordShared = false;
void forgetShared() { nShared = 0; sharedLo = UINTPTR_MAX; sharedHi = 0; }
void sharedBlock(void *p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (!p || !n || nShared == MAXS) return;
  shared[nShared++] = {a, a + n};
  if (a < sharedLo) sharedLo = a;
  if (a + n > sharedHi) sharedHi = a + n;
}
static inline void at(const void *p, size_t n, bool write) {
  uintptr_t a = (uintptr_t)p;
  if (nShared && a >= sharedLo && a < sharedHi) for (int i = 0; i < nShared; i++) if (a >= shared[i].a && a < shared[i].e) { touch(0x10000 + ((uintptr_t)i << 24) + (a - shared[i].a), n, write); return; }
  if (a < (uintptr_t)&__data_start || a >= (uintptr_t)&_end) return;
  touch(a, n, write);
}
extern "C" {
#define LS(n) \
void __sanitizer_cov_load##n(void *p) { at(p, n, false); } \
void __sanitizer_cov_store##n(void *p) { at(p, n, true); }
LS(1) LS(2) LS(4) LS(8) LS(16)
#define NOSAN __attribute__((no_sanitize("address", "undefined")))
void *__real___asan_memcpy(void *d, const void *s, size_t n);
void *__real___asan_memmove(void *d, const void *s, size_t n);
void *__real___asan_memset(void *d, int c, size_t n);
NOSAN void *__wrap___asan_memcpy(void *d, const void *s, size_t n) { if (W && n) { moved(n); at(s, n, false); } void *r = __real___asan_memcpy(d, s, n); if (W && n) at(d, n, true); return r; }
NOSAN void *__wrap___asan_memmove(void *d, const void *s, size_t n) { if (W && n) { moved(n); at(s, n, false); } void *r = __real___asan_memmove(d, s, n); if (W && n) at(d, n, true); return r; }
NOSAN void *__wrap___asan_memset(void *d, int c, size_t n) { void *r = __real___asan_memset(d, c, n); if (W && n) at(d, n, true); return r; }
void *__real_memcpy(void *d, const void *s, size_t n);
void *__real_memmove(void *d, const void *s, size_t n);
// These two are the ones of the C++ library's own code.
NOSAN void *__wrap_memcpy(void *d, const void *s, size_t n) { if (W && n) { moved(n); at(s, n, false); } void *r = __real_memcpy(d, s, n); if (W && n) at(d, n, true); return r; }
NOSAN void *__wrap_memmove(void *d, const void *s, size_t n) { if (W && n) { moved(n); at(s, n, false); } void *r = __real_memmove(d, s, n); if (W && n) at(d, n, true); return r; }
size_t __real_strlen(const char *s);
char *__real_strcpy(char *d, const char *s);
char *__real_strncpy(char *d, const char *s, size_t n);
char *__real_strcat(char *d, const char *s);
char *__real_strncat(char *d, const char *s, size_t n);
int __real_strcmp(const char *a, const char *b);
size_t __wrap_strlen(const char *s) { if (W) at(s, 1, false); size_t n = __real_strlen(s); if (W) moved(n); return n; }
char *__wrap_strcpy(char *d, const char *s) { if (W) at(s, 1, false); char *r = __real_strcpy(d, s); if (W) at(d, 8, true); return r; }
char *__wrap_strncpy(char *d, const char *s, size_t n) { if (W) at(s, 1, false); char *r = __real_strncpy(d, s, n); if (W && n) at(d, n < 64 ? n : 64, true); return r; }
char *__wrap_strcat(char *d, const char *s) { if (W) { at(s, 1, false); at(d, 1, false); moved(__real_strlen(d)); } char *r = __real_strcat(d, s); if (W) at(d, 8, true); return r; }
char *__wrap_strncat(char *d, const char *s, size_t n) { if (W) { at(s, 1, false); at(d, 1, false); moved(__real_strlen(d)); } char *r = __real_strncat(d, s, n); if (W) at(d, 8, true); return r; }
int __wrap_strcmp(const char *a, const char *b) { if (W) { at(a, 1, false); at(b, 1, false); } return __real_strcmp(a, b); }
// The same for functions of the C library that write into what they are given or have a static object of their own.
int __real_vsnprintf(char *d, size_t n, const char *f, va_list a);
int __real_vsprintf(char *d, const char *f, va_list a);
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list a) { int r = __real_vsnprintf(d, n, f, a); if (W && n) at(d, 8, true); return r; }
int __wrap_vsprintf(char *d, const char *f, va_list a) { int r = __real_vsprintf(d, f, a); if (W) at(d, 8, true); return r; }
int __wrap_snprintf(char *d, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = __wrap_vsnprintf(d, n, f, a); va_end(a); return r; }
int __wrap_sprintf(char *d, const char *f, ...) { va_list a; va_start(a, f); int r = __wrap_vsprintf(d, f, a); va_end(a); return r; }
char *__real_strtok(char *s, const char *d);
char *__wrap_strtok(char *s, const char *d) { if (W) touch(0x1000, 8, true); char *r = __real_strtok(s, d); if (W) touch(0x1000, 8, true); return r; }
struct tm *__real_localtime(const time_t *t);
struct tm *__wrap_localtime(const time_t *t) { struct tm *r = __real_localtime(t); if (W) touch((uintptr_t)r, 8, true); return r; }
struct tm *__real_gmtime(const time_t *t);
struct tm *__wrap_gmtime(const time_t *t) { struct tm *r = __real_gmtime(t); if (W) touch((uintptr_t)r, 8, true); return r; }
char *__real_asctime(const struct tm *t);
char *__wrap_asctime(const struct tm *t) { char *r = __real_asctime(t); if (W) touch((uintptr_t)r, 8, true); return r; }
char *__real_ctime(const time_t *t);
char *__wrap_ctime(const time_t *t) { char *r = __real_ctime(t); if (W) touch((uintptr_t)r, 8, true); return r; }
}
