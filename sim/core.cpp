#include "core.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <algorithm>
#include "server.h"

const char *faultNames[] = {
#define X(n) #n,
  FAULT_KINDS(X)
#undef X
};
Slot *slot;
Choices CH;
World *W;
thread_local Actor *me;
thread_local int inLib = 0;
thread_local int libClient = -1;

uint64_t fnv(uint64_t h, const void *p, size_t n) {
  auto *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
std::string fmt(const char *f, ...) {
  char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
std::string esc(const std::string &s, size_t max) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (o.size() >= max) { o += fmt("...(%zu bytes)", s.size()); break; }
    unsigned char c = s[i];
    if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
    else o += c;
  }
  return o;
}

// ---- choices ----
void Choices::seed(uint64_t v) { s = v * 0x9E3779B97F4A7C15ull + 0x1234567; rnd(); rnd(); }
uint64_t Choices::rnd() {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint32_t Choices::draw(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (slot->nChoices >= MAX_CHOICES) return 0;      // out of recorded choices: the plain behaviour from here on, in the run and its replay alike
  if (replay) v = pos < in.size() ? in[pos] % n : 0;
  else v = (uint32_t)(rnd() % n);
  pos++;
  slot->choices[slot->nChoices++] = v;
  return v;
}
bool Choices::chance(unsigned pm) { if (pm == 0) return false; return draw(1000) >= 1000 - std::min(pm, 1000u) && pm > 0; }
uint32_t Choices::pick(std::initializer_list<unsigned> w) {
  unsigned t = 0; for (auto x : w) t += x;
  uint32_t v = draw(t); uint32_t i = 0;
  for (auto x : w) { if (v < x) return i; v -= x; i++; }
  return 0;
}

// ---- trace ----
void tr(const char *f, ...) {
  if (!W) return;
  char b[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  W->hash = fnv(W->hash, b, n);
  W->hash = fnv(W->hash, &W->now, sizeof W->now);
  slot->hash = W->hash;
  if (W->tracing && W->trace.size() < 20000)
    W->trace.push_back(fmt("%12.6f a%d op%d | ", W->now / 1e9, me ? me->id : -1, me ? me->curOp : -1) + b);
}
void shapeAdd(const std::string &s) { W->shape = fnv(W->shape, s.data(), s.size() + 1); }

int curOp() { return me ? me->curOp : 0; }
Op *op(int id) { return id > 0 && id <= (int)W->ops.size() ? W->ops[id - 1].get() : nullptr; }
Op *curOpPtr() { return op(curOp()); }
void fired(Fault f, const std::string &note) {
  slot->faults[f]++;
  tr("fault %s %s", faultNames[f], note.c_str());
  shapeAdd(std::string("!") + faultNames[f]);
  if (Op *o = curOpPtr()) { o->faultsHit.push_back(f); if (o->faultNotes.size() < 20) o->faultNotes.push_back(note); }
}
bool takeTerminal(Fault f, const std::string &note) {
  if (!W->nf.terminal || W->terminalFired >= W->terminalBudget) return false;
  W->terminalFired++;
  W->lastTerminalOp = curOp();
  fired(f, note);
  return true;
}

const char *asProp;
[[noreturn]] static void finish(uint32_t st) {
  if (W) { slot->hash = W->hash; slot->shape = W->shape; slot->simNs = W->now; slot->steps = W->steps; }
  if (W && W->tracing) {
    FILE *f = stdout;
    for (auto &l : W->trace) fprintf(f, "%s\n", l.c_str());
    fflush(f);
  }
  __sync_synchronize();
  slot->status = st;
  _exit(0);
}
void finishOk() { finish(1); }
void violation(const char *prop, const std::string &kind, const std::string &msg) {
  if (asProp && *prop != '*') prop = asProp;
  if (W) { tr("VIOLATION %s %s: %s", prop, kind.c_str(), msg.c_str()); }
  snprintf(slot->prop, sizeof slot->prop, "%s", prop);
  snprintf(slot->kind, sizeof slot->kind, "%s", kind.c_str());
  snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
  finish(2);
}
void harnessError(const std::string &msg) {
  snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
  snprintf(slot->kind, sizeof slot->kind, "harness");
  finish(3);
}
void noteKnown(const std::string &s) { slot->kf++; snprintf(slot->kfText, sizeof slot->kfText, "%s", s.c_str()); }

// ---- events ----
static bool later(const Event &a, const Event &b) { return a.t != b.t ? a.t > b.t : a.seq > b.seq; }
void at(ns_t t, std::function<void()> fn) {
  if (t < W->now) t = W->now;
  W->heap.push_back(Event{t, W->seq++, std::move(fn)});
  std::push_heap(W->heap.begin(), W->heap.end(), later);
}
void runDue() {
  while (!W->heap.empty() && W->heap.front().t <= W->now) {
    std::pop_heap(W->heap.begin(), W->heap.end(), later);
    Event e = std::move(W->heap.back());
    W->heap.pop_back();
    int sv = me ? me->curOp : 0; if (me) me->curOp = 0;   // an event belongs to no call
    e.fn();
    if (me) me->curOp = sv;
  }
}
void checkStuck() {
  if (++W->steps > W->maxSteps) violation("*", "hang:steps", fmt("no return after %llu simulated system calls", (unsigned long long)W->steps));
  ns_t began = me && me->curOp ? W->ops[(size_t)me->curOp - 1]->t0 : 0;
  if (W->now - began > W->maxSim) violation("*", "hang:time", fmt("no return after %.0f simulated seconds", (W->now - began) / 1e9));
}
void tick(ns_t d) { W->now += d; checkStuck(); runDue(); }

// ---- scheduler ----
static void handoff(Actor *to) {
  if (to == me) return;
  Actor *self = me;
  W->cur = to;
  slot->switches++;
  slot->faults[F_switch_actor]++;
  W->hash = fnv(W->hash, &to->id, sizeof to->id);
  sem_post(&to->sem);
  while (sem_wait(&self->sem) != 0) {}
}
static int64_t drawQuantum() {
  switch (CH.pick({6, 4, 3, 2})) {
    case 1: return 1 + CH.draw(12);
    case 2: return 1 + CH.draw(150);
    case 3: return 1 + CH.draw(2500);
    default: return -1;
  }
}
static int64_t drawTouches() {
  switch (CH.pick({4, 3, 2, 1})) {
    case 1: return 1 + CH.draw(4);
    case 2: return 1 + CH.draw(40);
    case 3: return 1 + CH.draw(600);
    default: return -1;
  }
}
static void arm(Actor *a) { a->quantum = drawQuantum(); a->touches = touchedStatics() ? drawTouches() : -1; }
static void runnable(std::vector<Actor *> &out) {
  out.clear();
  for (auto *a : W->actors) {
    if (a->done || a->parked > W->now) continue;
    if (!a->blocked || W->now >= a->deadline || (a->cond && a->cond())) out.push_back(a);
  }
}
// pick who runs next; self may be finished
static Actor *pickNext() {
  std::vector<Actor *> r;
  for (;;) {
    runDue();
    runnable(r);
    if (!r.empty()) break;
    ns_t t = NEVER;
    if (!W->heap.empty()) t = W->heap.front().t;
    for (auto *a : W->actors) if (!a->done) t = std::min(t, a->parked > W->now ? a->parked : a->deadline);
    if (t >= NEVER) {
      bool alive = false; for (auto *a : W->actors) alive |= !a->done;
      if (!alive) return nullptr;
      violation("*", "hang:forever", "a call is blocked forever: no timer armed and nothing left that could wake it");
    }
    if (t > W->now) W->now = t;
    checkStuck();
  }
  return r.size() == 1 ? r[0] : r[CH.draw((uint32_t)r.size())];
}
bool blockUntil(std::function<bool()> cond, ns_t deadline) {
  runDue();
  if (cond()) { if (W->multi) yieldPoint(); return true; }
  me->blocked = true; me->cond = cond; me->deadline = deadline;
  for (;;) {
    Actor *n = pickNext();
    if (n != me) { arm(n); handoff(n); }
    // running again
    bool c = cond();
    if (c || W->now >= deadline) { me->blocked = false; me->cond = nullptr; me->deadline = NEVER; return c; }
  }
}
void yieldPoint() {
  if (!W->multi || me->noPreempt) return;
  me->blocked = false;
  Actor *n = pickNext();
  arm(n);
  if (n != me) handoff(n);
}
extern "C" void simPreempt() {  // called from instrumented library code
  if (!W || !W->active || !W->multi || !inLib || !me || me->noPreempt) return;
  if (me->quantum > 0 && --me->quantum == 0) {
    int s = inLib; inLib = 0; int e = errno;
    slot->faults[F_preempt]++;
    yieldPoint();
    inLib = s; errno = e;
  }
}
// Library code touches a static object that library code has also written. An actor may
// wait here, for a moment, until another one comes to the same place.
extern "C" void simTouch(uintptr_t where) {
  if (!W || !W->active || !W->multi || !inLib || !me || me->noPreempt) return;
  for (auto *a : W->actors) if (a != me && a->parked > W->now && (a->parkedAt > where ? a->parkedAt - where : where - a->parkedAt) <= 8) {
    a->parked = 0;
    me->touches = 1 + CH.draw(6);
  }
  if (me->touches < 0 && me->untouched++ == 0) me->touches = drawTouches();      // the first contact of this actor
  if (me->touches > 0 && --me->touches == 0) {
    int s = inLib; inLib = 0; int e = errno;
    slot->faults[F_preempt]++;
    if (me->parks < 3 && CH.draw(2)) { me->parks++; slot->faults[F_wait_at_static]++; me->parked = W->now + 150 * MS; me->parkedAt = where; }
    yieldPoint();
    inLib = s; errno = e;
  }
}
// An actor keeps the baton until the destructors of its thread_local objects have run.
struct LastOfThread {
  Actor *a = nullptr;
  ~LastOfThread() {
    if (!a) return;
    a->done = true;
    Actor *n = pickNext();
    if (n) { arm(n); W->cur = n; sem_post(&n->sem); }
  }
};
static thread_local LastOfThread lastOfThread;
static void *actorMain(void *p) {
  Actor *a = (Actor *)p;
  me = a;
  while (sem_wait(&a->sem) != 0) {}
  lastOfThread.a = a;                   // constructed first, so destroyed after the library's thread_local objects
  a->body();
  return nullptr;
}
void runActors(std::vector<std::function<void()>> bodies) {
  Actor *root = me;
  size_t base = W->actors.size();
  root->blocked = true; root->deadline = NEVER;
  for (auto &b : bodies) {
    auto *a = new Actor; a->id = (int)W->actors.size(); sem_init(&a->sem, 0, 0); a->body = b;
    W->actors.push_back(a);
  }
  root->cond = [base]() { for (size_t i = base; i < W->actors.size(); i++) if (!W->actors[i]->done) return false; return true; };
  W->multi = true;
  for (size_t i = base; i < W->actors.size(); i++) {
    pthread_attr_t at_; pthread_attr_init(&at_); pthread_attr_setstacksize(&at_, 4 << 20);
    if (pthread_create(&W->actors[i]->th, &at_, actorMain, W->actors[i])) harnessError("pthread_create");
    pthread_attr_destroy(&at_);
  }
  for (;;) {
    if (root->cond()) break;
    Actor *n = pickNext();
    if (n == root) continue;
    arm(n);
    handoff(n);
  }
  for (size_t i = base; i < W->actors.size(); i++) pthread_join(W->actors[i]->th, nullptr);
  W->multi = false;
  root->blocked = false; root->cond = nullptr;
}

Seam::Seam() { saved = inLib; inLib = 0; savedErr = errno; if (me && W && W->active) { if (Op *o = curOpPtr()) o->sysc++; } }
Seam::~Seam() { inLib = saved; }

// ---- network: server -> client ----
void netSend(Conn *c, const std::string &data, const std::vector<std::pair<size_t, ns_t>> &plan) {
  size_t off = 0; ns_t t = std::max(W->now, c->lastS2c);
  size_t pi = 0;
  c->s2cTotal += data.size(); c->c2sDelaySum = 0;
  while (off < data.size()) {
    size_t n = data.size() - off; ns_t d = 0;
    if (pi < plan.size()) { n = std::min(n, plan[pi].first); d = plan[pi].second; pi++; }
    t += d;
    std::string part = data.substr(off, n);
    off += n;
    at(t, [c, part]() {
      if (c->rxRst || !c->open) return;
      c->rx += part;
      tr("net conn%d <- %zu bytes", c->id, part.size());
    });
  }
  c->lastS2c = t;
}
void netFin(Conn *c, ns_t delay) {
  c->srvClosed = true;
  ns_t t = std::max(W->now, c->lastS2c) + delay; c->lastS2c = t;
  at(t, [c]() { if (!c->rxFin) { c->rxFin = true; tr("net conn%d <- FIN", c->id); } });
}
void netRst(Conn *c, ns_t delay) {
  c->srvClosed = true;
  ns_t t = std::max(W->now, c->lastS2c) + delay; c->lastS2c = t;
  at(t, [c]() { if (!c->rxRst) { c->rxRst = true; c->rx.clear(); c->queued = 0; tr("net conn%d <- RST", c->id); } });
}
void netResume(Conn *c) {
  c->srvStall = false;
  std::string d; d.swap(c->stalledData);
  if (!d.empty()) { c->queued -= std::min(c->queued, d.size()); if (c->srv) c->srv->onBytes(c, d); }
}
