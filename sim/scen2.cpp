// Scenarios that are not plain histories: concurrent clients (C16), object
// programs (C18), C against C++ interface (C19), allocation failures (C20).
#include "scen.h"
#include "attachment.h"
#include "credential.h"
#include "messageaddress.h"
#include <algorithm>
#include <iostream>
#include <locale.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>

Creds genCreds();
void styleServer(SrvCfg &g, unsigned runs);
void faultServer(SrvCfg &g, unsigned total, bool focus, bool rejectOnly);
void transient(unsigned runs);
void netStyle(unsigned runs, ns_t maxConn);
static const char *hosts[] = {"mail1.sim", "mail2.sim", "mail3.sim", "mail4.sim"};
Server *healthyServer(int i, CKind k, Settings &st, bool style) {
  Server *v = addServer(hosts[i], 0x0a000001u + (uint32_t)i, 2525 + i);
  SrvCfg &g = v->cfg;
  g.implicitTls = k == K_FORCED; g.offerTls = k == K_OPP && CH.draw(4) != 3; g.cert = C_VALID;
  if (st.selfOk && CH.draw(2)) g.cert = C_SELFSIGNED;
  g.authMask = 7;
  if (st.cr.set) { v->users[st.cr.user] = st.cr.pass; g.authMask = (st.cr.pref ? 1 << (st.cr.pref - 1) : 0) | (int)CH.draw(8); if (!g.authMask) g.authMask = M_PLAIN; if (k != K_OPP || g.offerTls) g.requireAuth = CH.draw(2); }
  g.maxDelay = st.timeout >= 2 ? (ns_t)st.timeout * SEC - 1500 * MS : 200 * MS;
  if (style) styleServer(g, 600);
  return v;
}
Settings genSettings(CKind k, bool cpp) {
  Settings st; st.kind = k; st.cpp = cpp;
  static const unsigned T[] = {5, 2, 3, 8}; uint32_t t = CH.draw(4); st.timeout = T[t]; st.timeoutSet = t > 0;
  st.batch = CH.draw(2); st.selfOk = k != K_PLAIN && CH.draw(3) == 2;
  if (CH.draw(2)) { st.cr = genCreds(); st.cr.pref = (int)CH.draw(4); }
  return st;
}
void regClient(ClientBox *b) { credsOf[b->id] = {}; if (b->st.cr.set) credsOf[b->id].push_back(b->st.cr); kindOf[b->id] = b->st.kind; }

// ---- C16 -----------------------------------------------------------------------
static void setAll(ClientBox *c) {
  const Settings &s = c->st;
  Op *o = beginOp("settings", c->id);
  c->setServer(hostOf(s), (unsigned)W->servers[(size_t)s.srv]->port); c->setTimeout(s.timeout); c->setBatch(s.batch);
  if (s.cr.set) c->setCreds(s.cr);
  if (s.kind != K_PLAIN) c->setSelf(s.selfOk);
  endOp(o);
}
// What a library shares with the rest of its process: everybody has to find it as it was.
static std::string processState() {
  std::string s;
  for (int i = 1; i < 32; i++) { struct sigaction a; if (i == SIGKILL || i == SIGSTOP || sigaction(i, nullptr, &a)) continue; s += fmt("disposition of signal %d: %p flags %x; ", i, a.sa_flags & SA_SIGINFO ? (void *)a.sa_sigaction : (void *)a.sa_handler, (unsigned)a.sa_flags); }
  char cwd[4096]; s += fmt("directory %s; ", getcwd(cwd, sizeof cwd) ? cwd : "?");
  s += fmt("locale %s; ", setlocale(LC_ALL, nullptr));
  mode_t m = umask(0); umask(m); s += fmt("umask %o; ", (unsigned)m);
  s += "environment"; for (char **e = environ; e && *e; e++) { s += " "; s += *e; }
  s += fmt("; cerr flags %x", (unsigned)std::cerr.flags());
  return s;
}
static std::string threadState() {
  sigset_t m, p; pthread_sigmask(SIG_SETMASK, nullptr, &m); sigpending(&p);
  std::string s; for (int i = 1; i < 32; i++) { if (sigismember(&m, i) == 1) s += fmt("signal %d blocked ", i); if (sigismember(&p, i) == 1) s += fmt("signal %d pending ", i); }
  return s;
}
static void compareState(const char *what, const std::string &a, const std::string &b) {
  if (a == b) return;
  size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
  size_t q = a.rfind("; ", k); q = q == std::string::npos ? 0 : q + 2;
  violation("C16", "process-state", fmt("%s: \"%s\" before the clients were at work, \"%s\" after it", what, esc(a.substr(q, a.find("; ", q) - q), 100).c_str(), esc(b.substr(q, b.find("; ", q) - q), 100).c_str()));
}
void run16() {
  asProp = "C16";
  std::string before = processState();
  std::map<int, std::unique_ptr<jed_utils::Message>> shared;
  int n = 2 + (int)CH.pick({4, 2, 1});
  struct A { ClientBox *b; std::vector<int> ms; int mode; bool cppMsg; ClientBox *proto = nullptr; };
  static std::vector<A> as; as.clear();
  bool bounds = CH.draw(3) == 2;
  for (int i = 0; i < n; i++) {
    A a; CKind k = (CKind)CH.draw(3); bool cpp = CH.draw(3) == 2;
    a.b = newBox(k, cpp); int id = a.b->id; a.b->st = genSettings(k, cpp);
    a.b->st.srv = i; a.b->id = id;
    Server *v = healthyServer(i, k, a.b->st, true);
    a.mode = (int)CH.pick({6, 2, 2, 1});
    if (a.mode == 3) v->cfg.hole = true;
    if (a.mode == 1) { faultServer(v->cfg, 300, true, true); }                       // refuses
    if (a.mode == 2) { v->cfg.silent = 400; v->cfg.stepMask = 0; for (int q = 0; q < 3; q++) v->cfg.stepMask |= 1u << CH.draw(S_END + 1); }  // goes silent
    int ns = 1 + (int)CH.draw(3);
    for (int q = 0; q < ns; q++) { MsgSpec m = genMsg((int)msgs.size() + 1, CH.draw(3) ? RICH_NORMAL : RICH_MIN); m.id = (int)msgs.size();
      if (bounds && !m.nullBody) for (int w = (int)CH.draw(4), j = 0; j < w; j++) m.body += j ? fmt("\r\n--sep%d_ or so", j) : "\r\n--sep or so";   // which separates the parts differs between messages
      a.ms.push_back(m.id); msgs.push_back(m); }
    a.cppMsg = CH.draw(2); regClient(a.b);
    // sometimes one message object is sent by several threads: sending does not change it
    if (i && CH.draw(4) == 3) for (int q = 0; q < (int)a.ms.size() && q < (int)as[0].ms.size(); q++) { int m = a.ms[(size_t)q] = as[0].ms[(size_t)q]; if (!shared[m]) { LibScope l(a.b->id); ShareScope sh; bool c = CH.draw(2) && !msgs[(size_t)m].nullBody && !msgs[(size_t)m].nullSubject; shared[m] = c ? buildCpp(msgs[(size_t)m]) : buildC(msgs[(size_t)m]); } }
    as.push_back(a);
  }
  // sometimes the clients are copies of one prototype
  ClientBox *proto = nullptr;
  if (CH.draw(4) == 3) for (size_t i = 1; i < as.size(); i++) if (as[i].b->st.kind == as[0].b->st.kind && as[i].b->st.cpp == as[0].b->st.cpp) {
    if (!proto) { proto = as[0].b->blank(); proto->st = as[0].b->st; proto->st.cr = Creds(); regClient(proto); ShareScope sh; applySettings(proto); }
    as[i].proto = as[0].proto = proto;
  }
  transient(300); W->nf.fdZero = 0;
  std::vector<std::function<void()>> bodies;
  for (size_t i = 0; i < as.size(); i++) bodies.push_back([i, &shared]() {
    A &a = as[i];
    std::string mask = threadState();
    if (a.proto) { Settings st = a.b->st; Op *o = beginOp("copy of the prototype", a.b->id); a.b->copyFrom(*a.proto); endOp(o); a.b->st = st; setAll(a.b); }
    else applySettings(a.b);
    for (int m : a.ms) { auto f = shared.find(m); if (f != shared.end()) doSendObj(a.b, m, *f->second); else doSend(a.b, m, a.cppMsg && !msgs[(size_t)m].nullBody && !msgs[(size_t)m].nullSubject); if (CH.draw(4) == 3) sleepSim((ns_t)CH.draw(4000) * MS); }
    destroyBox(a.b);
    compareState("the signals of a thread", "; " + mask, "; " + threadState());
  });
  runActors(bodies);
  settle();
  for (auto &m : shared) { LibScope l(0); m.second.reset(); }
  if (proto) destroyBox(proto);
  checkThrown("C16");
  compareState("the state of the process", before, processState());
  for (auto &f : foreignUses) violation("C16", "foreign-descriptor", fmt("call %d %s: %s(%d) used %s", f.op, op(f.op) ? op(f.op)->what.c_str() : "", f.call.c_str(), f.fd, f.what.c_str()));
  std::map<int, int> lastRc;
  for (auto &s : sends) {
    Op *o = op(s.op);
    A *a = nullptr; for (auto &x : as) if (x.b->id == s.client) a = &x;
    if (a->mode == 0 && o->rc != 0) violation("C16", "interference", fmt("call %d (%s) failed with %d on a willing server while other clients were at work", s.op, kindName(s.st), o->rc));
    for (auto *d : deliveredBy(s.op)) {
      if (d->server != s.st.srv) violation("C16", "wrong-server", fmt("call %d of client %d was delivered to server %d", s.op, s.client, d->server));
      std::string e = compareMail(msgs[(size_t)s.msg], d->content); if (e.empty()) e = compareEnvelope(msgs[(size_t)s.msg], *d);
      if (!e.empty()) violation("C16", "mixed-up", fmt("call %d of client %d: ", s.op, s.client) + e);
      if (s.st.cr.set && !d->authUser.empty() && d->authUser != s.st.cr.user) violation("C16", "wrong-credentials", fmt("call %d was authenticated as %s instead of %s", s.op, d->authUser.c_str(), s.st.cr.user.c_str()));
    }
    // nobody waits for somebody else's server
    ns_t dur = o->t1 - o->t0; bool slow = !faultFree(s.op) || a->mode == 3;
    if (!slow && dur > o->injected + 3 * SEC) violation("C16", "waits-for-others", fmt("call %d took %.1f s although its own server caused only %.1f s", s.op, dur / 1e9, o->injected / 1e9));
  }
  oC01(); oC09(); oC10(); oC11(); oC15();
  oC12(true);
  asProp = nullptr;
}

// ---- C18 -----------------------------------------------------------------------
struct Obj { ClientBox *b; bool moved; std::string desc; };
static void clientProgram() {
  // Some runs are about live sessions changing hands: batch mode, different servers, mostly sends and moves.
  bool lively = CH.draw(3) == 2;
  CKind k = (CKind)CH.draw(3); bool cpp = CH.draw(2);
  if (lively && CH.draw(2)) k = K_OPP;
  std::vector<Obj> pool;
  int nsrv = 0;
  for (int i = 0; i < 2; i++) { Settings dummy; dummy.timeout = 2; Server *v = healthyServer(nsrv++, k, dummy, CH.draw(2)); v->cfg.authMask = 7; v->cfg.requireAuth = false; if (k != K_PLAIN && CH.draw(3) == 2) v->cfg.cert = C_SELFSIGNED; }
  if (lively && k == K_OPP) { uint32_t t = CH.draw(2); W->servers[0]->cfg.offerTls = t; W->servers[1]->cfg.offerTls = !t; }
  static const Creds none;
  auto users = [&](const Creds &c) { for (auto *v : W->servers) v->users[c.user] = c.pass; };
  auto verify = [&](const char *what) {
    for (auto &o : pool) if (!o.moved) {
      std::string d = o.b->describe();
      if (d != o.desc) violation("C18", "settings", fmt("after %s an object reports \"%s\" instead of \"%s\"", what, esc(d, 200).c_str(), esc(o.desc, 200).c_str()));
    } else {
      try { o.b->describe(); } catch (const std::exception &e) { violation("C18", "moved-from", fmt("after %s reading a moved-from %s threw %s", what, kindName(o.b->st), e.what())); }
    }
  };
  auto own = [&](ClientBox *from, ClientBox *to) { for (auto *c : W->conns) if (c->open && c->client == from->id) c->client = to->id; };
  auto create = [&]() {
    ClientBox *b = newBox(k, cpp); int id = b->id; Settings st = genSettings(k, cpp); st.srv = (int)CH.draw(2); b->st = st; b->id = id;
    if (lively) st.batch = b->st.batch = true;
    if (st.cr.set) users(st.cr);
    regClient(b); applySettings(b);
    pool.push_back({b, false, b->describe()});
  };
  auto sendOn = [&](Obj &o) {
    MsgSpec m = genMsg((int)msgs.size() + 1, CH.draw(2) ? RICH_NORMAL : RICH_MIN); m.id = (int)msgs.size(); msgs.push_back(m);
    int live = 0; for (auto *c : W->conns) if (c->open && c->client == o.b->id) live = c->id;
    size_t before = W->conns.size();
    const SrvCfg &sc = W->servers[(size_t)o.b->st.srv]->cfg;
    bool refuse = !(live && o.b->st.batch) && sc.cert == C_SELFSIGNED && !o.b->st.selfOk && (k == K_FORCED || (k == K_OPP && sc.offerTls));
    int rc = doSend(o.b, m.id, false);
    if (refuse) {
      if (rc == 0 || !deliveredBy(sends.back().op).empty()) violation("C18", "settings", "a client that does not accept self-signed certificates sent to a server with one after it was copied, moved or assigned");
      return;
    }
    if (rc != 0) violation("C18", "unusable", fmt("a send (%s) on a willing server failed with %d after the object was copied, moved or assigned", kindName(o.b->st), rc));
    auto d = deliveredBy(sends.back().op);
    if (d.size() != 1) violation("C18", "unusable", "a send reported success without delivering its message");
    std::string e = compareMail(m, d[0]->content); if (e.empty()) e = compareEnvelope(m, *d[0]);
    if (!e.empty()) violation("C18", "mixed-up", e);
    if (live && o.b->st.batch && W->conns.size() != before) violation("C18", "session-lost", fmt("the live batch session conn%d was not continued", live));
    if (live && o.b->st.batch && d[0]->conn != live) violation("C18", "session-lost", fmt("the live batch session conn%d was not continued", live));
    bool mustAuth = o.b->st.cr.set && (k != K_OPP || d[0]->tls);
    if (mustAuth && d[0]->authUser != o.b->st.cr.user) violation("C18", "credentials", fmt("a send was authenticated as \"%s\" instead of \"%s\"", esc(d[0]->authUser).c_str(), esc(o.b->st.cr.user).c_str()));
    if (!mustAuth && !o.b->st.cr.set && !d[0]->authUser.empty()) violation("C18", "credentials", "a client without credentials authenticated");
    int server = o.b->st.srv; if (d[0]->server != server) violation("C18", "settings", "a send went to another server than the one the object reports");
    for (auto &f : foreignUses) violation("C18", "foreign-descriptor", fmt("%s(%d) used %s", f.call.c_str(), f.fd, f.what.c_str()));
  };
  auto pickLive = [&]() -> int { std::vector<int> v; for (size_t i = 0; i < pool.size(); i++) if (!pool[i].moved) v.push_back((int)i); return v.empty() ? -1 : v[CH.draw((uint32_t)v.size())]; };
  create();
  if (lively) create();
  int nops = 2 + (int)CH.draw(14), next = -1;
  for (int q = 0; q < nops; q++) {
    int i = pickLive();
    if (i < 0) { create(); continue; }
    if (next >= 0 && next < (int)pool.size() && !pool[(size_t)next].moved && CH.draw(3)) { sendOn(pool[(size_t)next]); next = -1; verify("send"); continue; }
    next = -1;
    if (CH.draw(20) == 19) {                              // a moved-from client as the source: an exception is fine, damage is not
      std::vector<int> v; for (size_t x = 0; x < pool.size(); x++) if (pool[x].moved) v.push_back((int)x);
      if (!v.empty()) {
        Obj &src = pool[(size_t)v[CH.draw((uint32_t)v.size())]]; int t = (int)CH.draw((uint32_t)pool.size()); Obj &dst = pool[(size_t)t];
        uint32_t how = CH.draw(4); ClientBox *n = nullptr; bool ok = true; Settings was = dst.b->st; was.kind = k; was.cpp = cpp;
        Op *o = beginOp("use moved-from", dst.b->id);
        try { switch (how) { case 0: (n = src.b->blank())->copyFrom(*src.b); break; case 1: (n = src.b->blank())->moveFrom(*src.b); break; case 2: dst.b->assign(*src.b); break; default: dst.b->moveAssign(*src.b); } }
        catch (const std::exception &e) { ok = false; tr("moved-from source: %s", e.what()); }
        endOp(o);
        if (how < 2) { if (ok) pool.push_back({n, true, ""}); }
        else if (ok) { dst.moved = true; for (auto *c : W->conns) if (c->open && c->client == dst.b->id) violation("C18", "not-closed", fmt("the assignment of a moved-from client left the session conn%d open", c->id)); }
        else { dst.b->st = was; if (!dst.moved) { std::string d = dst.b->describe(); if (d != dst.desc) violation("C18", "settings", fmt("a failed assignment left an object that reports \"%s\" instead of \"%s\"", esc(d, 200).c_str(), esc(dst.desc, 200).c_str())); } }
        verify("the use of a moved-from source");
        if (pool[(size_t)i].moved) continue;
      }
    }
    uint32_t what = lively ? CH.pick({9, 3, 1, 3, 1, 6, 1, 1}) : CH.pick({6, 1, 3, 3, 3, 3, 3, 2});
    const char *name = "";
    switch (what) {
      case 0: sendOn(pool[(size_t)i]); name = "send"; break;
      case 1: if (pool.size() < 5) create(); name = "create"; break;
      case 2: {                                           // copy construction
        if (pool.size() >= 6) break;
        ClientBox *s = pool[(size_t)i].b, *n = s->blank(); name = "copy construction";
        int before = totalOpenConns(s->id);
        Op *o = beginOp("copy-construct", n->id); n->copyFrom(*s); endOp(o); regClient(n);
        if (totalOpenConns(s->id) != before) violation("C18", "source-affected", "copying a client closed the session of its source");
        if (totalOpenConns(n->id)) violation("C18", "session-shared", "a copy has a session before its first send");
        pool.push_back({n, false, pool[(size_t)i].desc}); break;
      }
      case 3: {                                           // move construction
        if (pool.size() >= 6) break;
        ClientBox *s = pool[(size_t)i].b, *n = s->blank(); name = "move construction";
        int before = totalOpenConns(s->id);
        Op *o = beginOp("move-construct", n->id); n->moveFrom(*s); endOp(o); regClient(n); own(s, n);
        if (totalOpenConns(n->id) != before) violation("C18", "session-lost", "moving a client closed its live session");
        pool[(size_t)i].moved = true; pool.push_back({n, false, pool[(size_t)i].desc}); break;
      }
      case 4: case 5: {                                   // assignment over a live or a moved-from object
        size_t t = CH.draw((uint32_t)pool.size());
        if ((int)t == i) { if (what == 4) { Op *o = beginOp("self-assign", pool[t].b->id); pool[t].b->assign(*pool[t].b); endOp(o); name = "self assignment"; } break; }
        ClientBox *s = pool[(size_t)i].b, *d = pool[t].b;
        int before = totalOpenConns(s->id);
        std::vector<Conn *> held; for (auto *c : W->conns) if (c->open && c->client == d->id) held.push_back(c);
        name = what == 4 ? "copy assignment" : "move assignment";
        Op *o = beginOp(name, d->id); if (what == 4) d->assign(*s); else d->moveAssign(*s); endOp(o);
        for (auto *c : held) if (c->open) violation("C18", "not-closed", fmt("%s left the session conn%d of the assigned-over client open", name, c->id));
        if (totalOpenConns(s->id) != before) violation("C18", "source-affected", fmt("%s closed the live session of its source", name));
        pool[t].moved = false; pool[t].desc = pool[(size_t)i].desc;
        if (what == 5) { own(s, d); pool[(size_t)i].moved = true; }
        if (lively) next = (int)t;
        regClient(d);
        break;
      }
      case 6: {                                           // setters on one object do not reach the others
        Obj &o = pool[(size_t)i]; name = "a setter";
        switch (CH.draw(k == K_PLAIN ? 3 : 4)) {
          case 3: { if (totalOpenConns(o.b->id)) break; bool v = CH.draw(2); Op *x = beginOp("setAcceptSelfSignedCert", o.b->id); o.b->st.selfOk = v; o.b->setSelf(v); endOp(x); break; }
          case 0: { unsigned t = 2 + CH.draw(9); Op *x = beginOp("setCommandTimeout", o.b->id); o.b->st.timeout = t; o.b->setTimeout(t); endOp(x); break; }
          case 1: { if (totalOpenConns(o.b->id)) break; bool v = CH.draw(2); Op *x = beginOp("setBatchMode", o.b->id); o.b->st.batch = v; o.b->setBatch(v); endOp(x); break; }
          default: { if (totalOpenConns(o.b->id)) break; Creds c = genCreds(); c.pref = (int)CH.draw(4); users(c); Op *x = beginOp("setCredentials", o.b->id); o.b->st.cr = c; o.b->setCreds(c); endOp(x); regClient(o.b); break; }
        }
        o.desc = o.b->describe(); break;
      }
      default: { destroyBox(pool[(size_t)i].b); pool.erase(pool.begin() + i); name = "destruction"; break; }
    }
    verify(name);
    for (auto &f : foreignUses) violation("C18", "foreign-descriptor", fmt("%s: %s(%d) used %s", name, f.call.c_str(), f.fd, f.what.c_str()));
  }
  while (!pool.empty()) { size_t i = CH.draw((uint32_t)pool.size()); destroyBox(pool[i].b); pool.erase(pool.begin() + (long)i); verify("destruction"); }
}
// Value objects: every object has a model value; its description has to follow the model.
// With failing, one allocation of an operation may fail: the operation then throws
// std::bad_alloc, its source keeps its value, and every object stays readable,
// assignable and destructible.
static bool failingValues;
template <class T> static void valueProgram(const char *what, std::function<T *(int)> make, std::function<std::string(const T &)> desc, std::function<std::string(T &, int)> mutate = nullptr, std::function<std::string(const T &)> readMoved = nullptr) {
  struct V { T *o; bool moved; std::string d; };
  const char *P = failingValues ? "C20" : "C18";
  std::vector<V> pool; int next = 0;
  Op *o = beginOp(std::string("object program ") + what, 0);
  static const uint32_t scale[] = {2, 5, 12, 60};
  auto guarded = [&](const char *name, std::function<void()> f) -> bool {
    bool arm = failingValues && CH.draw(2), ok = true;
    if (arm) memFailAt((int64_t)CH.draw(scale[CH.draw(4)]));
    try { LibScope l(0); f(); }
    catch (const std::bad_alloc &) { ok = false; }
    catch (const std::exception &e) { memFailAt(-1); violation(P, "exception", fmt("%s of a %s threw %s", name, what, e.what())); }
    bool fired_ = memFailFired();
    memFailAt(-1);
    if (!ok && !(arm && fired_)) violation(P, "exception", fmt("%s of a %s threw std::bad_alloc although no allocation failed", name, what));
    tr("%s %s%s", what, name, ok ? "" : " (failed allocation)");
    return ok;
  };
  auto add = [&](bool must) { int k = next++; T *p = nullptr; for (int tries = 0; !p && tries < 3; tries++) { guarded("construction", [&]() { p = make(k); }); if (!must) break; } if (!p) return; pool.push_back({p, false, desc(*p)}); };
  add(true); add(true);
  int n = 2 + (int)CH.draw(14);
  for (int q = 0; q < n; q++) {
    std::vector<size_t> lv; for (size_t i = 0; i < pool.size(); i++) if (!pool[i].moved) lv.push_back(i);
    if (lv.empty()) { add(true); continue; }
    size_t i = lv[CH.draw((uint32_t)lv.size())], t = CH.draw((uint32_t)pool.size());
    const char *name = "";
    if (CH.draw(12) == 11) {                              // a moved-from source: an exception is fine, damage is not
      std::vector<size_t> mv; for (size_t x = 0; x < pool.size(); x++) if (pool[x].moved) mv.push_back(x);
      if (!mv.empty() && !failingValues) {
        size_t s = mv[CH.draw((uint32_t)mv.size())]; uint32_t how = CH.draw(4); T *p = nullptr; bool ok = true;
        try { LibScope l(0); switch (how) { case 0: p = new T(*pool[s].o); break; case 1: p = new T(std::move(*pool[s].o)); break; case 2: *pool[t].o = static_cast<const T &>(*pool[s].o); break; default: *pool[t].o = std::move(*pool[s].o); } }
        catch (const std::exception &e) { ok = false; tr("%s moved-from source: %s", what, e.what()); }
        if (p) pool.push_back({p, true, ""});
        if (how >= 2) pool[t].moved = true;
        (void)ok;
        i = lv[0]; if (pool[i].moved) continue;
      }
    }
    switch (CH.pick({2, 3, 3, 4, 4, 2, mutate ? 4u : 0u})) {
      case 0: if (pool.size() < 6) add(false); name = "construction"; break;
      case 1: name = "copy construction"; if (pool.size() < 7) { T *p = nullptr; if (guarded(name, [&]() { p = new T(*pool[i].o); })) pool.push_back({p, false, pool[i].d}); } break;
      case 2: name = "move construction"; if (pool.size() < 7) { T *p = nullptr; if (guarded(name, [&]() { p = new T(std::move(*pool[i].o)); })) { pool[i].moved = true; pool.push_back({p, false, pool[i].d}); } else pool[i].d = desc(*pool[i].o); } break;
      case 3: {
        name = t == i ? "self assignment" : "copy assignment";
        bool ok = guarded(name, [&]() { const T &src = *pool[i].o; *pool[t].o = src; });
        if (ok) { if (t != i) { pool[t].moved = false; pool[t].d = pool[i].d; } }
        else if (t != i && !pool[t].moved) pool[t].d = desc(*pool[t].o);
        break;
      }
      case 4: name = "move assignment"; if (t != i) { if (guarded(name, [&]() { *pool[t].o = std::move(*pool[i].o); })) { pool[t].moved = false; pool[t].d = pool[i].d; pool[i].moved = true; } else { pool[i].d = desc(*pool[i].o); if (!pool[t].moved) pool[t].d = desc(*pool[t].o); } } break;
      case 6: {
        name = "setter";
        std::string must;
        bool ok = guarded(name, [&]() { must = mutate(*pool[i].o, next); });
        next++;
        pool[i].d = desc(*pool[i].o);
        if (ok && pool[i].d.find(must) == std::string::npos) violation(P, std::string("value:") + what, fmt("after a setter a %s reads \"%s\", without \"%s\"", what, esc(pool[i].d, 200).c_str(), must.c_str()));
        break;
      }
      default: { LibScope l(0); delete pool[i].o; } pool.erase(pool.begin() + (long)i); name = "destruction"; tr("%s destruction", what); break;
    }
    for (auto &v : pool) if (v.moved) {       // a moved-from object can be read: its counts and lists agree, its texts are empty
      try { LibScope l(0); readMoved ? readMoved(*v.o) : desc(*v.o); }
      catch (const std::exception &e) { violation(P, "moved-from", fmt("reading a moved-from %s threw %s", what, e.what())); }
    }
    for (auto &v : pool) if (!v.moved) {
      std::string d = desc(*v.o);
      if (d != v.d) violation(P, std::string("value:") + what, fmt("after %s a %s reads \"%s\" instead of \"%s\"", name, what, esc(d, 200).c_str(), esc(v.d, 200).c_str()));
    }
  }
  for (auto &v : pool) { LibScope l(0); delete v.o; }
  endOp(o);
  shapeAdd(what);
}
static std::string nz(const char *p) { return p ? p : "(null)"; }
static std::string descMsg(const jed_utils::Message &m) {
  std::string s = nz(m.getFrom().getEmailAddress()) + "/" + nz(m.getFrom().getDisplayName()) + "|" + nz(m.getSubject()) + "|" + nz(m.getBody()) + "|" + nz(m.getMimeType());
  auto lst = [&](jed_utils::MessageAddress **l, size_t n) { s += fmt("|%zu:", n); for (size_t i = 0; i < n; i++) s += nz(l[i]->getEmailAddress()) + "/" + nz(l[i]->getDisplayName()) + ","; };
  lst(m.getTo(), m.getToCount()); lst(m.getCc(), m.getCcCount()); lst(m.getBcc(), m.getBccCount());
  s += fmt("|%zu:", m.getAttachmentsCount());
  for (size_t i = 0; i < m.getAttachmentsCount(); i++) s += nz(m.getAttachments()[i]->getName()) + "/" + nz(m.getAttachments()[i]->getFilename()) + "/" + nz(m.getAttachments()[i]->getContentId()) + ",";
  return s;
}
template <class CPPM> static std::string descCpp(const CPPM &m) {
  std::string s = std::string(m.getFrom().getEmailAddress()) + "/" + m.getFrom().getDisplayName() + "|" + m.getSubject() + "|" + m.getBody() + "|";
  for (auto *l : {&m.getTo(), &m.getCc(), &m.getBcc()}) { for (auto &a : *l) s += std::string(a.getEmailAddress()) + "/" + a.getDisplayName() + ","; s += "|"; }
  for (auto &a : m.getAttachments()) s += std::string(a.getName()) + "/" + a.getFilename() + "/" + a.getContentId() + ",";
  return s;
}
static void messageProgram() {
  static std::vector<MsgSpec> specs; specs.clear();
  bool html = CH.draw(2); bool cpp = CH.draw(3) == 2;
  auto spec = [html](int k) -> MsgSpec & { while ((int)specs.size() <= k) { MsgSpec m = genMsg((int)specs.size() + 1, CH.draw(2) ? RICH_NORMAL : RICH_MIN); m.html = html; specs.push_back(m); } return specs[(size_t)k]; };
  for (int i = 0; i < 20; i++) spec(i);
  namespace P = jed_utils::cpp;
  if (!cpp) {
    if (html) valueProgram<jed_utils::HTMLMessage>("HTMLMessage", [&](int k) { auto p = buildC(spec(k)); return static_cast<jed_utils::HTMLMessage *>(p.release()); }, [](const jed_utils::HTMLMessage &m) { return descMsg(m); });
    else valueProgram<jed_utils::PlaintextMessage>("PlaintextMessage", [&](int k) { auto p = buildC(spec(k)); return static_cast<jed_utils::PlaintextMessage *>(p.release()); }, [](const jed_utils::PlaintextMessage &m) { return descMsg(m); });
  } else {
    auto parts = [&](int k, std::vector<P::MessageAddress> &to, std::vector<P::MessageAddress> &cc, std::vector<P::MessageAddress> &bcc, std::vector<P::Attachment> &at) {
      MsgSpec &m = spec(k);
      for (auto &a : m.to) to.emplace_back(a.addr, a.name);
      for (auto &a : m.cc) cc.emplace_back(a.addr, a.name);
      for (auto &a : m.bcc) bcc.emplace_back(a.addr, a.name);
      for (auto &a : m.atts) at.emplace_back(filePool[(size_t)a.file].path, a.name, a.cid);
    };
    // a C++ message also has to convert into an equal C message at any time
    if (html) valueProgram<P::HTMLMessage>("cpp::HTMLMessage", [&](int k) { std::vector<P::MessageAddress> to, cc, bcc; std::vector<P::Attachment> at; parts(k, to, cc, bcc, at); MsgSpec &m = spec(k); return new P::HTMLMessage(P::MessageAddress(m.from.addr, m.from.name), to, m.subject, m.body, cc, bcc, at); },
        [](const P::HTMLMessage &m) { std::string s = descCpp(m); LibScope l(0); jed_utils::HTMLMessage c(m); jed_utils::HTMLMessage c2(c); return s + "=>" + descMsg(c2); }, nullptr, [](const P::HTMLMessage &m) { return descCpp(m); });
    else valueProgram<P::PlaintextMessage>("cpp::PlaintextMessage", [&](int k) { std::vector<P::MessageAddress> to, cc, bcc; std::vector<P::Attachment> at; parts(k, to, cc, bcc, at); MsgSpec &m = spec(k); return new P::PlaintextMessage(P::MessageAddress(m.from.addr, m.from.name), to, m.subject, m.body, cc, bcc, at); },
        [](const P::PlaintextMessage &m) { std::string s = descCpp(m); LibScope l(0); jed_utils::PlaintextMessage c(m); jed_utils::PlaintextMessage c2(c); return s + "=>" + descMsg(c2); }, nullptr, [](const P::PlaintextMessage &m) { return descCpp(m); });
  }
}
// Two addresses are equal if their texts are, whether moved-from or not.
template <class A> static void sameAs(const A &a, const std::string &addr, const std::string &name) {
  static const char *const other[][2] = {{"a3@example.com", ""}, {"a4@example.com", "Name 4"}, {"a4@example.com", ""}};
  bool ok = a == a;
  for (auto &o : other) { A b(o[0], o[1]); bool eq = addr == o[0] && name == o[1]; ok &= (a == b) == eq && (b == a) == eq; }
  if (!ok) violation(failingValues ? "C20" : "C18", "comparison", "the comparison of the address " + addr + "/" + name + " with another one disagrees with their texts");
}
static void smallProgram() {
  namespace P = jed_utils::cpp;
  using namespace jed_utils;
  switch (CH.draw(6)) {
    case 0: valueProgram<MessageAddress>("MessageAddress", [](int k) { return new MessageAddress(fmt("a%d@example.com", k).c_str(), k % 3 ? fmt("Name %d", k).c_str() : ""); }, [](const MessageAddress &a) { sameAs(a, nz(a.getEmailAddress()), nz(a.getDisplayName())); return nz(a.getEmailAddress()) + "/" + nz(a.getDisplayName()) + "/" + std::string(a); }); break;
    case 1: valueProgram<Attachment>("Attachment", [](int k) { std::unique_ptr<Attachment> a(new Attachment(filePool[(size_t)k % poolGood].path.c_str(), k % 3 ? fmt("n%d", k).c_str() : "", k % 2 ? fmt("cid%d", k).c_str() : "")); if (k % 4 == 1) { a->setContentId("first"); a->setContentId(fmt("again%d", k).c_str()); } return a.release(); }, [](const Attachment &a) { return nz(a.getName()) + "/" + nz(a.getFilename()) + "/" + nz(a.getContentId()) + "/" + nz(a.getMimeType()) + (a.getFilename() ? "" : std::string(std::unique_ptr<const char[]>(a.getBase64EncodedFile()) ? "content" : "")); }, [](Attachment &a, int k) { std::string v = fmt("set%d", k); a.setContentId(v.c_str()); return v; }); break;
    case 2: valueProgram<Credential>("Credential", [](int k) { return k % 2 ? new Credential(fmt("u%d", k).c_str(), fmt("p%d", k).c_str(), (RecommendedAuthenticationMethod)(k % 4)) : new Credential(fmt("u%d", k).c_str(), fmt("p%d", k).c_str()); }, [](const Credential &c) { return nz(c.getUsername()) + "/" + nz(c.getPassword()) + fmt("/%d", (int)c.getRecommendedAuthOption()); }, [](Credential &c, int k) -> std::string {
      std::string v = fmt("set%d", k);
      switch (k % 4) { case 0: c.setUsername(v.c_str()); return v + "/"; case 3: c.setRecommendedAuthOption((RecommendedAuthenticationMethod)(k / 4 % 4)); return fmt("/%d", k / 4 % 4); default: c.setPassword(v.c_str()); return "/" + v; } }); break;
    case 3: valueProgram<P::MessageAddress>("cpp::MessageAddress", [](int k) { return new P::MessageAddress(fmt("a%d@example.com", k), k % 3 ? fmt("Name %d", k) : ""); }, [](const P::MessageAddress &a) { sameAs(a, a.getEmailAddress(), a.getDisplayName()); return std::string(a.getEmailAddress()) + "/" + a.getDisplayName() + "/" + std::string(a); }); break;
    case 4: valueProgram<P::Attachment>("cpp::Attachment", [](int k) { return new P::Attachment(filePool[(size_t)k % poolGood].path, k % 3 ? fmt("n%d", k) : "", k % 2 ? fmt("cid%d", k) : ""); }, [](const P::Attachment &a) { return std::string(a.getName()) + "/" + a.getFilename() + "/" + a.getContentId() + "/" + a.getMimeType() + (a.getFilename().empty() ? a.getBase64EncodedFile() : ""); }, [](P::Attachment &a, int k) { std::string v = fmt("set%d", k); a.setContentId(v); return v; }); break;
    default: valueProgram<P::Credential>("cpp::Credential", [](int k) { return k % 2 ? new P::Credential(fmt("u%d", k), fmt("p%d", k), (RecommendedAuthenticationMethod)(k % 4)) : new P::Credential(fmt("u%d", k), fmt("p%d", k)); }, [](const P::Credential &c) { return std::string(c.getUsername()) + "/" + c.getPassword() + fmt("/%d", (int)c.getRecommendedAuthOption()); }, [](P::Credential &c, int k) -> std::string {
      std::string v = fmt("set%d", k);
      switch (k % 4) { case 0: c.setUsername(v); return v + "/"; case 3: c.setRecommendedAuthOption((RecommendedAuthenticationMethod)(k / 4 % 4)); return fmt("/%d", k / 4 % 4); default: c.setPassword(v); return "/" + v; } }); break;
  }
}
void run18() {
  asProp = "C18"; failingValues = false;
  switch (CH.pick({6, 3, 2})) {
    case 0: clientProgram(); break;
    case 1: messageProgram(); slot->sends += 2; break;
    default: smallProgram(); slot->sends += 2; break;
  }
  settle();
  checkThrown("C18");
  oC12(true);
  asProp = nullptr;
}

// ---- C19 -----------------------------------------------------------------------
struct Outcome { std::vector<std::string> lines; ns_t end; };
static Outcome pairRun(bool cpp) {
  Outcome out;
  CKind k = (CKind)CH.draw(3);
  Settings st = genSettings(k, false);
  Server *v = healthyServer(0, k, st, true);
  if (st.cr.set && CH.draw(6) == 5) v->cfg.authMask = (int)CH.draw(8);
  if (k != K_PLAIN && CH.draw(4) == 3) v->cfg.cert = (int)CH.draw(C_COUNT);
  if (CH.draw(2)) faultServer(v->cfg, CH.draw(2) ? 60 : 400, CH.draw(2), false);
  transient(400); netStyle(300, 100 * MS);
  W->nf.sendFail = CH.draw(5) == 4 ? 20 : 0; W->nf.recvFail = CH.draw(5) == 4 ? 20 : 0;
  int nm = 1 + (int)CH.draw(4); bool order = CH.draw(2);
  std::vector<bool> toggles;
  for (int i = 0; i < nm; i++) { MsgSpec m = genMsg(i + 1, CH.draw(2) ? RICH_NORMAL : RICH_WILD); m.multi = true; m.id = i; if (m.nullSubject) { m.nullSubject = false; m.subject = "s"; } if (m.nullBody) { m.nullBody = false; m.body = "b"; } msgs.push_back(m); toggles.push_back(CH.draw(5) == 4); }
  int copyAt = CH.draw(3) == 2 ? (int)CH.draw(4) : -1;
  ClientBox *b = newBox(k, cpp); int id = b->id; st.cpp = cpp; b->st = st; b->id = id; regClient(b);
  (void)order;
  auto describe = [&](ClientBox *x) { out.lines.push_back("settings " + x->describe()); };
  applySettings(b); describe(b);
  for (int i = 0; i < nm; i++) {
    uint32_t set = CH.draw(8);
    if (set == 1) {                                        // values are kept as they are, whatever their size
      static const unsigned T[] = {255, 256, 300, 65535, 65536, 100000, 2147483647u, 2147483648u, 4294967295u, 0};
      Op *o = beginOp("setCommandTimeout", b->id); b->setTimeout(T[CH.draw(10)]); endOp(o); describe(b);
      o = beginOp("setCommandTimeout", b->id); b->st.timeout = CH.draw(3) ? st.timeout : 256 + CH.draw(100); b->setTimeout(b->st.timeout); endOp(o); describe(b);
    } else if (set == 2) {
      static const unsigned Q[] = {65535, 65536 + 25, 255, 4294967295u, 0};
      Op *o = beginOp("setServer", b->id); b->setServer("other" + std::to_string(i) + ".sim", Q[CH.draw(5)]); endOp(o); describe(b);
      if (CH.draw(4)) { o = beginOp("setServer", b->id); b->setServer(hosts[0], (unsigned)v->port); endOp(o); describe(b); }
    } else if (set == 3) {
      Creds c = genCreds(); c.pref = (int)CH.draw(4); if (CH.draw(2) && st.cr.set) c.user = st.cr.user; if (CH.draw(4)) v->users[c.user] = c.pass;
      Op *o = beginOp("setCredentials", b->id); b->st.cr = c; credsOf[b->id].push_back(c); b->setCreds(c); endOp(o); describe(b);
    } else if (set == 4 && k != K_PLAIN) { Op *o = beginOp("setAcceptSelfSignedCert", b->id); b->st.selfOk = !b->st.selfOk; b->setSelf(b->st.selfOk); endOp(o); describe(b); }
    if (toggles[(size_t)i]) { b->st.batch = !b->st.batch; Op *o = beginOp("setBatchMode", b->id); b->setBatch(b->st.batch); endOp(o); describe(b); }
    if (copyAt == i) {
      ClientBox *n = b->blank(); Op *o = beginOp("copy", n->id); n->copyFrom(*b); endOp(o); regClient(n);
      destroyBox(b); b = n; describe(b);
    }
    doSend(b, i, cpp);
    out.lines.push_back(fmt("send %d returned %d", i, op(sends.back().op)->rc));
    out.lines.push_back("log " + op(sends.back().op)->log);
    describe(b);
  }
  destroyBox(b); settle();
  for (auto &e : H.ev) out.lines.push_back(fmt("conn%d %c step %s tls %d: ", e.conn, e.dir, stepNames[e.step], e.tls) + e.text);
  for (auto &d : H.delivered) { std::string l = "delivered from " + d.from + " to"; for (auto &r : d.rcpts) l += " " + r; out.lines.push_back(l + " as " + d.authUser + ": " + d.content); }
  for (auto *s : W->servers) for (auto &p : s->sessions) out.lines.push_back(fmt("session conn%d quit %d clientClosed %d tls %d", p->c->id, p->quit, p->clientClosed, p->everTls));
  out.end = W->now;
  return out;
}
void run19() {
  uint32_t a = slot->nChoices;
  checkThrown("C19");
  Outcome c = pairRun(false);
  checkThrown("C19");
  oC12(false);
  uint32_t b = slot->nChoices;
  uint64_t h = W->hash, sh = W->shape; ns_t t = W->now; uint64_t steps = W->steps; bool tracing = W->tracing; auto trace = W->trace;
  auto keepMsgs = msgs;
  Choices saved = CH;
  CH.replay = true; CH.in.assign(slot->choices + a, slot->choices + b); CH.pos = 0;
  resetRand();
  newWorld(tracing);
  W->hash = h; W->shape = sh; W->trace = trace; W->steps = steps;
  tr("---- the same history again through the C++ interface ----");
  credsOf.clear(); kindOf.clear();
  Outcome d = pairRun(true);
  bool moreDraws = CH.pos > CH.in.size();
  saved.s = CH.s; CH = saved; slot->nChoices = b;
  (void)t;
  checkThrown("C19");
  size_t n = std::min(c.lines.size(), d.lines.size());
  for (size_t i = 0; i <= n; i++) {
    std::string x = i < c.lines.size() ? c.lines[i] : "(nothing)", y = i < d.lines.size() ? d.lines[i] : "(nothing)";
    if (i == n && c.lines.size() == d.lines.size()) break;
    if (x != y) {
      size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) k++; k = k > 30 ? k - 30 : 0;
      violation("C19", "differs", fmt("C interface: \"%s\"; C++ interface: \"%s\" (entry: %s)", esc(x.substr(k), 120).c_str(), esc(y.substr(k), 120).c_str(), esc(x, 40).c_str()));
    }
  }
  if (moreDraws) violation("C19", "differs", "the C++ interface made more system calls than the C interface for the same history");
  asProp = "C19"; oC12(true); asProp = nullptr;
}

// ---- C20 -----------------------------------------------------------------------
void run20() {
  asProp = "C20";
  if (CH.draw(5) == 4) {                // value objects, with allocations failing during their operations
    failingValues = true;
    if (CH.draw(2)) smallProgram(); else messageProgram();
    failingValues = false;
    slot->sends += 2;
    settle(); oC12(true); asProp = nullptr;
    return;
  }
  CKind k = (CKind)CH.draw(3); bool cpp = CH.draw(3) == 2;
  Settings st = genSettings(k, cpp);
  healthyServer(0, k, st, false);
  int nm = 1 + (int)CH.draw(3);
  for (int i = 0; i < nm + 1; i++) { MsgSpec m = genMsg(i + 1, CH.draw(2) ? RICH_NORMAL : RICH_MIN); m.id = (int)msgs.size(); if (m.body.size() > 3000) m.body.resize(3000); if (!m.nullBody && CH.draw(6) == 5) { int rows = 60 + (int)CH.draw(200); m.body.clear(); for (int r = 0; r < rows; r++) m.body += fmt("row %d of a message that makes the log grow while it is sent\r\n", r); } msgs.push_back(m); }
  // the program: create, set, build, send, copy, assign, ... with one allocation failing somewhere
  static const uint32_t scale[] = {8, 40, 200, 1000};
  static const size_t sizes[] = {0, 100, 1000, 4000, 9000};
  size_t failSize = sizes[CH.pick({6, 1, 1, 1, 1})];
  int64_t failAt = (int64_t)CH.draw(failSize ? (CH.draw(2) ? 3 : 20) : scale[CH.draw(4)]);
  int64_t target = (int64_t)CH.draw(10), step = 0;
  bool used = false;
  int id = 1; ClientBox *b = newBox(k, cpp); id = b->id; b->st = st; b->id = id; regClient(b);
  std::vector<ClientBox *> all{b};
  std::string last;
  auto guarded = [&](const std::string &what, ClientBox *x, std::function<void()> f) -> bool {
    bool arm = !used && step++ >= target;
    if (arm) memFailAt(failAt, failSize);
    Op *o = beginOp(what, x ? x->id : 0);
    bool ok = true;
    try { f(); }
    catch (const std::bad_alloc &) { ok = false; o->exc = "std::bad_alloc"; }
    catch (const std::exception &e) { memFailAt(-1); violation("C20", "exception", what + " threw " + e.what()); }
    catch (...) { memFailAt(-1); violation("C20", "exception", what + " threw an unknown exception"); }
    bool fired_ = memFailFired();
    if (arm) memFailAt(-1);
    endOp(o);
    if (!ok && !fired_) violation("C20", "exception", what + " threw std::bad_alloc although no allocation failed");
    if (fired_) { used = true; last = what; }
    return ok;
  };
  auto configure = [&](ClientBox *x) {
    if (!x->alive()) { for (int i = 0; i < 3 && !x->alive(); i++) guarded("construct", x, [&]() { x->create(); }); }
    if (!x->alive()) violation("C20", "unusable", "the client cannot be constructed any more");
    for (int i = 0; i < 2; i++) {
      bool ok = guarded("setServerName", x, [&]() { x->setServer(hostOf(x->st), (unsigned)W->servers[0]->port); });
      if (x->st.timeoutSet) ok &= guarded("setCommandTimeout", x, [&]() { x->setTimeout(x->st.timeout); });
      if (x->st.batch) ok &= guarded("setBatchMode", x, [&]() { x->setBatch(true); });
      if (x->st.cr.set) ok &= guarded("setCredentials", x, [&]() { x->setCreds(x->st.cr); });
      if (x->st.selfOk && k != K_PLAIN) ok &= guarded("setAcceptSelfSignedCert", x, [&]() { x->setSelf(true); });
      if (ok) break;
      if (i == 1) violation("C20", "unusable", "a setter keeps failing");
    }
  };
  configure(b);
  int nsend = 0;
  for (int i = 0; i < nm; i++) {
    std::unique_ptr<jed_utils::Message> m;
    for (int tries = 0; tries < 2 && !m; tries++) guarded("build message", b, [&]() { libClient = b->id; m = cpp && !msgs[(size_t)i].nullBody && !msgs[(size_t)i].nullSubject ? buildCpp(msgs[(size_t)i]) : buildC(msgs[(size_t)i]); });
    if (!m) violation("C20", "unusable", "a message cannot be built any more");
    if (CH.draw(4) == 3) {              // copies of the client on the way
      ClientBox *n = b->blank();
      bool ok = guarded("copy-construct client", n, [&]() { n->copyFrom(*b); });
      if (ok) {
        regClient(n); all.push_back(n);
        if (CH.draw(2)) guarded("copy-assign client", n, [&]() { n->assign(*b); });
        if (CH.draw(2)) { guarded("move-assign client", b, [&]() { b->moveAssign(*n); }); for (auto *c : W->conns) if (c->open && c->client == n->id) c->client = b->id; LibScope l(n->id); n->destroy(); }
      }
      if (!b->alive()) violation("C20", "unusable", "lost client");
    }
    if (CH.draw(4) == 3) guarded("copy message", b, [&]() { LibScope l(b->id); if (msgs[(size_t)i].html) { jed_utils::HTMLMessage x(static_cast<jed_utils::HTMLMessage &>(*m)); jed_utils::HTMLMessage y(x); y = x; } else { jed_utils::PlaintextMessage x(static_cast<jed_utils::PlaintextMessage &>(*m)); jed_utils::PlaintextMessage y(x); y = x; } });
    bool arm = !used && step++ >= target;
    if (arm) memFailAt(failAt, failSize);
    int rc = doSendObj(b, i, *m);
    bool f = memFailFired();
    memFailAt(-1);
    if (f) { used = true; last = "send"; }
    nsend++;
    Op *o = op(sends.back().op);
    if (rc == -9999) violation("C20", "exception", "a send threw " + o->exc);
    if (rc == -9998 && !f) violation("C20", "exception", "a send threw std::bad_alloc although no allocation failed");
    auto d = deliveredBy(o->id);
    if (rc == 0) {
      if (d.size() != 1) violation("C20", "false-success", "a send during which an allocation failed reported success without delivering its message");
      std::string e = compareMail(msgs[(size_t)i], d[0]->content); if (e.empty()) e = compareEnvelope(msgs[(size_t)i], *d[0]);
      if (!e.empty()) violation("C20", "false-success", "a send during which an allocation failed reported success but " + e);
    } else {
      if (!f && !(used && rc < 0 && false)) violation("C20", "unusable", fmt("a send without any failing allocation returned %d on a willing server (earlier failure during %s)", rc, last.empty() ? "nothing" : last.c_str()));
      for (auto *x : d) { std::string e = compareEnvelope(msgs[(size_t)i], *x); if (e.empty()) e = compareMail(msgs[(size_t)i], x->content); if (!e.empty()) violation("C20", "partial-message", "a failed send had an incomplete message accepted: " + e); }
    }
    { LibScope l(b->id); m.reset(); }
    if (f) configure(b);
  }
  // once more, with everything working
  {
    auto m = buildC(msgs[(size_t)nm]);
    configure(b);
    int rc = doSendObj(b, nm, *m);
    auto d = deliveredBy(sends.back().op);
    if (rc != 0 || d.size() != 1) violation("C20", "unusable", fmt("after a failed allocation during %s the next send on a willing server returned %d", last.empty() ? "(none)" : last.c_str(), rc));
    { LibScope l(b->id); m.reset(); }
  }
  for (auto *x : all) if (x->alive()) { Op *o = beginOp("destroy", x->id); x->destroy(); endOp(o); }
  settle();
  oC12(true);
  (void)nsend;
  asProp = nullptr;
}
