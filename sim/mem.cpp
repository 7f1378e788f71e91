// Memory seam: ledger of the allocations made by library code, injected
// allocation failures, and a ledger of the client-side OpenSSL objects.
#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <openssl/bio.h>
#include <openssl/crypto.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <new>
#include <string>
#include <vector>
#include <unordered_map>

namespace {
struct Rec { size_t size; uint64_t seq; void *site; int op; };
std::unordered_map<void *, Rec> *ledger;
uint64_t seqNo, libAllocs;
int64_t failAt = -1; size_t failMin;
bool failFired;
thread_local int guard;
bool libCode() { return inLib > 0 && W && W->active && me && !guard; }
// returns true when this allocation has to fail
bool noteBefore(size_t n) {
  if (!libCode()) return false;
  libAllocs++;
  if (failAt >= 0 && n >= failMin && failAt-- == 0) {
    failFired = true;
    int s = inLib; inLib = 0;
    fired(F_alloc_fail, "");
    inLib = s;
    return true;
  }
  return false;
}
void noteAfter(void *p, size_t n, void *site) {
  if (!p || !libCode()) return;
  guard++;
  if (!ledger) ledger = new std::unordered_map<void *, Rec>();
  (*ledger)[p] = Rec{n, seqNo++, site, curOp()};
  if (recordShared) sharedBlock(p, n);
  guard--;
}
void noteFree(void *p) {
  if (!p || !ledger || guard || ledger->empty()) return;
  guard++;
  ledger->erase(p);
  guard--;
}
}  // namespace

void memReset() { if (ledger) ledger->clear(); libAllocs = 0; failAt = -1; failFired = false; }
size_t memLibAllocs() { return libAllocs; }
void memFailAt(int64_t k, size_t minSize) { failAt = k; failMin = minSize; failFired = false; }
bool memFailFired() { return failFired; }
// Blocks that a global, static or thread-local variable still leads to are kept, not
// lost: they are dropped from the ledger before what is left is judged.
namespace {
std::vector<std::pair<const char *, const char *>> *roots;
int addRoots(struct dl_phdr_info *i, size_t, void *) {
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &h = i->dlpi_phdr[k];
    const char *a = nullptr;
    if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) a = (const char *)i->dlpi_addr + h.p_vaddr;
    if (h.p_type == PT_TLS) a = (const char *)i->dlpi_tls_data;
    if (!a) continue;
    a = (const char *)(((uintptr_t)a + 7) & ~(uintptr_t)7);
    roots->push_back({a, a + h.p_memsz / 8 * 8 - 8});
  }
  return 0;
}
__attribute__((no_sanitize("address", "undefined"))) void scanWords(const char *a, const char *e, const std::vector<std::pair<uintptr_t, uintptr_t>> &blocks, std::vector<char> &seen, std::vector<size_t> &todo) {
  for (; a < e; a += 8) {
    uintptr_t v = *(const volatile uintptr_t *)a;
    if (v < blocks.front().first || v >= blocks.back().second) continue;
    auto it = std::upper_bound(blocks.begin(), blocks.end(), std::make_pair(v, UINTPTR_MAX));
    if (it == blocks.begin()) continue;
    --it;
    size_t k = (size_t)(it - blocks.begin());
    if (v < it->second && !seen[k]) { seen[k] = 1; todo.push_back(k); }
  }
}
void dropReachable() {
  std::vector<std::pair<uintptr_t, uintptr_t>> blocks;
  for (auto &e : *ledger) blocks.push_back({(uintptr_t)e.first, (uintptr_t)e.first + std::max<size_t>(1, e.second.size)});
  std::sort(blocks.begin(), blocks.end());
  std::vector<char> seen(blocks.size(), 0);
  std::vector<size_t> todo;
  std::vector<std::pair<const char *, const char *>> r;
  roots = &r;
  dl_iterate_phdr(addRoots, nullptr);
  for (auto &x : r) scanWords(x.first, x.second + 8, blocks, seen, todo);
  while (!todo.empty()) { size_t k = todo.back(); todo.pop_back(); scanWords((const char *)blocks[k].first, (const char *)(blocks[k].first + (blocks[k].second - blocks[k].first) / 8 * 8), blocks, seen, todo); }
  for (size_t k = 0; k < blocks.size(); k++) if (seen[k]) ledger->erase((void *)blocks[k].first);
}
}  // namespace
size_t memOutstanding(std::string *detail) {
  if (!ledger || ledger->empty()) return 0;
  guard++;
  dropReachable();
  if (ledger->empty()) { guard--; return 0; }
  if (detail) {
    const Rec *first = nullptr;
    for (auto &e : *ledger) if (!first || e.second.seq < first->seq) first = &e.second;
    Dl_info di{};
    dladdr(first->site, &di);
    *detail = fmt("%zu blocks; the first: %zu bytes allocated by %s during call %d", ledger->size(), first->size, di.dli_sname ? di.dli_sname : "?", first->op);
  }
  size_t n = ledger->size();
  guard--;
  return n;
}

extern "C" {
void simPreempt();
void *__real__Znwm(size_t);
void *__real__Znam(size_t);
void __real__ZdlPv(void *);
void __real__ZdaPv(void *);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
void __real_free(void *);
void *__wrap__Znwm(size_t n) { if (libCode()) simPreempt(); if (noteBefore(n)) throw std::bad_alloc(); void *p = __real__Znwm(n); noteAfter(p, n, __builtin_return_address(0)); return p; }
void *__wrap__Znam(size_t n) { if (libCode()) simPreempt(); if (noteBefore(n)) throw std::bad_alloc(); void *p = __real__Znam(n); noteAfter(p, n, __builtin_return_address(0)); return p; }
void *__real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t &);
void *__real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t &);
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (noteBefore(n)) return nullptr; void *p = __real__ZnwmRKSt9nothrow_t(n, t); noteAfter(p, n, __builtin_return_address(0)); return p; }
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (noteBefore(n)) return nullptr; void *p = __real__ZnamRKSt9nothrow_t(n, t); noteAfter(p, n, __builtin_return_address(0)); return p; }
void __real__ZdlPvm(void *, size_t);
void __real__ZdaPvm(void *, size_t);
void __wrap__ZdlPv(void *p) { noteFree(p); __real__ZdlPv(p); }
void __wrap__ZdaPv(void *p) { noteFree(p); __real__ZdaPv(p); }
void __wrap__ZdlPvm(void *p, size_t n) { noteFree(p); __real__ZdlPvm(p, n); }
void __wrap__ZdaPvm(void *p, size_t n) { noteFree(p); __real__ZdaPvm(p, n); }
void *__wrap_malloc(size_t n) { if (noteBefore(n)) { errno = ENOMEM; return nullptr; } void *p = __real_malloc(n); noteAfter(p, n, __builtin_return_address(0)); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (noteBefore(a * b)) { errno = ENOMEM; return nullptr; } void *p = __real_calloc(a, b); noteAfter(p, a * b, __builtin_return_address(0)); return p; }
void *__wrap_realloc(void *q, size_t n) { if (noteBefore(n)) { errno = ENOMEM; return nullptr; } void *p = __real_realloc(q, n); if (p || !n) noteFree(q); noteAfter(p, n, __builtin_return_address(0)); return p; }
char *__wrap_strdup(const char *s) { if (noteBefore(strlen(s) + 1)) { errno = ENOMEM; return nullptr; } char *p = __real_strdup(s); noteAfter(p, p ? strlen(p) + 1 : 0, __builtin_return_address(0)); return p; }
char *__wrap_strndup(const char *s, size_t n) { if (noteBefore(n)) { errno = ENOMEM; return nullptr; } char *p = __real_strndup(s, n); noteAfter(p, n, __builtin_return_address(0)); return p; }
void __wrap_free(void *p) { noteFree(p); __real_free(p); }
}

// ---- OpenSSL objects created by library code ---------------------------------
static std::set<void *> *live[4];
static thread_local int sslGuard;
static int exNew(int k, void *parent) {
  if (inLib > 0 && W && W->active && me) { guard++; live[k]->insert(parent); guard--; }
  return 1;
}
static void exFree(int k, void *parent) { guard++; live[k]->erase(parent); guard--; }
#define EX(k) \
  static int exNew##k(void *p, void *, CRYPTO_EX_DATA *, int, long, void *) { return exNew(k, p); } \
  static void exFree##k(void *p, void *, CRYPTO_EX_DATA *, int, long, void *) { exFree(k, p); }
EX(0) EX(1) EX(2) EX(3)
void sslLedgerInit() {
  for (auto &l : live) l = new std::set<void *>();
  auto reg = [](int cls, int (*n)(void *, void *, CRYPTO_EX_DATA *, int, long, void *), void (*f)(void *, void *, CRYPTO_EX_DATA *, int, long, void *)) {
    CRYPTO_get_ex_new_index(cls, 0, nullptr, (CRYPTO_EX_new *)n, nullptr, (CRYPTO_EX_free *)f);
  };
  reg(CRYPTO_EX_INDEX_SSL_CTX, exNew0, exFree0);
  reg(CRYPTO_EX_INDEX_SSL, exNew1, exFree1);
  reg(CRYPTO_EX_INDEX_BIO, exNew2, exFree2);
  reg(CRYPTO_EX_INDEX_X509, exNew3, exFree3);
}
SslLedger sslLive() { return SslLedger{(int)live[0]->size(), (int)live[1]->size(), (int)live[2]->size(), (int)live[3]->size()}; }
