// Profile-driven histories: one or two clients of any of the six classes against
// simulated servers, with swarm-selected fault kinds, judged by the property's oracle.
#include "scen.h"
#include <algorithm>

struct Prof {
  unsigned wPlain = 3, wOpp = 4, wForced = 4;
  int rich = RICH_NORMAL; bool atts = true;
  unsigned styleRuns = 800, transRuns = 600, netRuns = 500;
  unsigned faultRuns = 700, sysRuns = 300;
  int budget = 1 << 20;
  bool strict = false;            // the server is willing: every send has to succeed
  unsigned batch = 400, second = 250;
  int maxOps = 6;
  unsigned credRuns = 600, badCreds = 0, badCert = 0, mismatch = 0, noAuthMech = 0, byIp = 120, selfOk = 300;
  bool idleDrop = true, restart = true, waits = true, clockJump = true, toggle = true, credChange = true, retarget = true;
  bool heal = false, badFiles = false, diskFaults = false, perSessionAuth = false, perSessionCert = false, setters = true, focus = false, mailFormats = false, bigSkew = false, longBatch = false, bigBody = false;
  int objects = 1;                // 1: the client is moved away and back or overwritten by its own copy; 2: also overwritten by another client, or replaced by a copy of itself
  unsigned offerTls = 850; unsigned inject = 0, tlsFault = 0; unsigned rejectOnly = 0;
};
static Prof profile(int p) {
  Prof P;
  switch (p) {
    case 1: P.mailFormats = true; P.badFiles = true; break;
    case 2: P.strict = true; P.faultRuns = P.sysRuns = 0; P.rich = RICH_WILD; P.styleRuns = P.transRuns = 900; P.netRuns = 700; P.idleDrop = P.restart = false; P.mailFormats = true; break;
    case 3: P.strict = true; P.faultRuns = P.sysRuns = 0; P.rich = RICH_WILD; P.styleRuns = 500; P.transRuns = 800; P.netRuns = 600; P.idleDrop = P.restart = false; P.diskFaults = true; break;
    case 4: P.rich = RICH_WILD; P.faultRuns = 800; P.sysRuns = 150; P.mailFormats = true; break;
    case 5: P.rich = RICH_WILD; P.inject = 60; P.mailFormats = true; break;
    case 6: P.objects = 2; P.wPlain = 1; P.credRuns = 1000; P.badCreds = 250; P.badCert = 250; P.inject = 60; P.tlsFault = 60; P.offerTls = 800; P.mismatch = 60; P.atts = false; P.retarget = true; P.noAuthMech = 150; break;
    case 7: P.objects = 2; P.wPlain = 0; P.badCert = 800; P.perSessionCert = true; P.selfOk = 500; P.byIp = 200; P.faultRuns = 200; P.sysRuns = 100; P.offerTls = 1000; P.bigSkew = true; P.credRuns = 700; break;
    case 8: P.objects = 2; P.wPlain = 0; P.wOpp = 8; P.wForced = 2; P.offerTls = 850; P.inject = 250; P.tlsFault = 200; P.mismatch = 60; P.badCert = 150; P.faultRuns = 500; break;
    case 9: P.objects = 2; P.credRuns = 900; P.badCreds = 200; P.perSessionAuth = true; P.noAuthMech = 250; P.faultRuns = 400; P.sysRuns = 150; break;
    case 10: P.faultRuns = 900; P.tlsFault = 150; P.focus = true; P.mismatch = 60; P.maxOps = 4; break;
    case 11: P.objects = 0; P.faultRuns = 850; P.sysRuns = 500; P.budget = 1; P.maxOps = 3; P.focus = true; P.tlsFault = 100; P.badCreds = 80; P.second = 0; P.idleDrop = P.restart = P.credChange = P.retarget = false; P.mailFormats = true; P.badFiles = true; break;
    case 12: P.objects = 2; P.sysRuns = 500; P.tlsFault = 150; P.badCert = 200; P.mismatch = 80; P.badCreds = 100; P.badFiles = true; break;
    case 13: P.longBatch = true; P.strict = false; P.faultRuns = 350; P.rejectOnly = 1; P.sysRuns = 0; P.batch = 700; P.maxOps = 8; P.idleDrop = P.restart = P.retarget = P.credChange = false; break;
    case 14: P.objects = 2; P.heal = true; P.maxOps = 8; P.batch = 500; P.badFiles = true; P.badCreds = 120; P.sysRuns = 400; P.tlsFault = 150; P.faultRuns = 900; P.perSessionAuth = true; break;
    case 15: P.bigBody = true; P.longBatch = true; P.rejectOnly = 1; P.sysRuns = 100; P.faultRuns = 600; P.styleRuns = 900; P.noAuthMech = 100; P.badCreds = 100; P.mailFormats = true; P.idleDrop = false; break;
    case 17: P.badFiles = true; P.diskFaults = true; P.faultRuns = 0; P.sysRuns = 0; P.transRuns = 500; P.rich = RICH_NORMAL; P.batch = 300; P.idleDrop = P.restart = false; break;
  }
  return P;
}
static unsigned lv(std::initializer_list<unsigned> l) { return *(l.begin() + CH.draw((uint32_t)l.size())); }
static std::string token(size_t n) { static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"; std::string s; for (size_t i = 0; i < n; i++) s += a[CH.draw(62)]; return s; }
Creds genCreds() {
  Creds c; c.set = true;
  c.user = "user" + token(1 + CH.draw(6)) + (CH.draw(2) ? "@example.com" : "");
  c.pass = token(10 + CH.draw(12));
  switch (CH.pick({5, 2, 1, 1})) { case 1: c.pass += "!$%&/()=?"; break; case 2: c.pass += "p\xc3\xa4ss w\xc3\xb6rd"; break; case 3: c.pass += token(180); break; default: break; }
  if (CH.draw(12) == 11) c.user = token(150);
  if (CH.draw(60) == 59) { std::string t = token(16), &x = CH.draw(4) == 3 ? c.user : c.pass; size_t n = 48800 + CH.draw(700); while (x.size() < n) x += t; }   // longer than one line of base64 text
  for (int i = 2; !W->userNames.insert(c.user).second; i++) c.user = std::to_string(i) + c.user;
  return c;
}
static int maskOf(int pref) { return pref == 0 ? 7 : pref == 1 ? M_PLAIN : pref == 2 ? M_LOGIN : M_XOAUTH2; }
void styleServer(SrvCfg &g, unsigned runs) {
  if (!CH.chance(runs)) return;
  g.split = lv({0, 0, 60, 250, 700}); g.bytewise = lv({0, 0, 40, 200}); g.delay = lv({0, 0, 150, 500}); g.multiline = lv({0, 0, 150, 600});
  g.longline = lv({0, 0, 60, 300}); g.bigtotal = lv({0, 0, 0, 60, 250}); g.tlsFrag = lv({0, 0, 200}); g.codeOnly = lv({0, 0, 200});
  g.capStyle = (int)CH.draw(2); g.lowerCaps = CH.draw(4) == 3; g.authExtra = CH.draw(4) == 3; g.maxTls = CH.draw(4) == 3;
  g.authSplit = CH.draw(2) ? (int)CH.draw(4) : 0; g.authName = CH.draw(5) == 4; g.fwd = lv({0, 0, 300});
}
void faultServer(SrvCfg &g, unsigned total, bool focus, bool rejectOnly) {
  if (rejectOnly) { g.reject = total; }
  else {
    unsigned *f[] = {&g.reject, &g.silent, &g.partial, &g.closeBefore, &g.closeMid, &g.closeAfter, &g.rstBefore, &g.rstMid, &g.rstAfter, &g.garbage, &g.oversize, &g.unsolicited, &g.stallRead, &g.trickle};
    uint32_t m = CH.draw(1 << 14) | CH.draw(1 << 14); if (!m) m = 1;
    unsigned n = (unsigned)__builtin_popcount(m);
    for (int i = 0; i < 14; i++) if (m >> i & 1) *f[i] = std::max(1u, total / n);
  }
  if (focus) { g.stepMask = 0; uint32_t n = 1 + CH.draw(2); for (uint32_t i = 0; i < n; i++) g.stepMask |= 1u << CH.draw(S_OTHER); }
}
void transient(unsigned runs) {
  if (!CH.chance(runs)) return;
  W->nf.eintr = lv({0, 0, 20, 100, 300}); W->nf.shortSend = lv({0, 0, 20, 100, 400}); W->nf.shortRecv = lv({0, 0, 20, 100, 400});
  W->nf.fdZero = lv({0, 0, 0, 500}); W->nf.fdLarge = lv({0, 0, 0, 400}); W->nf.connImmediate = lv({0, 0, 400}); W->nf.stale = lv({0, 0, 300, 1000});
}
void netStyle(unsigned runs, ns_t maxConn) {
  if (!CH.chance(runs)) return;
  W->nf.smallSnd = lv({0, 0, 200, 700}); W->nf.slowDrain = lv({0, 0, 300}); W->nf.c2sDelay = lv({0, 0, 100}); W->nf.dnsSlow = lv({0, 0, 200});
  W->nf.connSlow = lv({0, 300}); W->nf.maxConnDelay = maxConn;
}
static void sysFaults(unsigned runs, unsigned rate) {
  if (!CH.chance(runs)) return;
  unsigned *f[] = {&W->nf.sockFail, &W->nf.fcntlFail, &W->nf.getsockFail, &W->nf.dnsFail, &W->nf.connRefused, &W->nf.connUnreach, &W->nf.connHole, &W->nf.ctxFail, &W->nf.bioFail};
  unsigned *g[] = {&W->nf.pollFail, &W->nf.sendFail, &W->nf.recvFail};
  uint32_t m = CH.draw(1 << 12) & CH.draw(1 << 12);
  for (int i = 0; i < 9; i++) if (m >> i & 1) *f[i] = rate;
  for (int i = 0; i < 3; i++) if (m >> (9 + i) & 1) *g[i] = std::max(5u, rate / 6);
}

struct Cl {
  ClientBox *b = nullptr; int server = 0, alt = -1; bool created = false; bool goodCreds = true, goodCert = true, usable = true;
  int prevSend = -1; bool disturbed = false; unsigned baseT = 0;
};
static bool certGood(const Settings &st, const SrvCfg &g) { return (!g.offerTls && st.kind == K_OPP) || (certTrusted(g.cert) && !st.byIp) || g.cert == C_IPSAN || (g.cert == C_SELFSIGNED && st.selfOk && !st.byIp); }
static bool willAuth(const Settings &s, const SrvCfg &g) {
  if (!s.cr.set) return false;
  if (s.kind == K_PLAIN) return true;
  if (s.kind == K_FORCED) return true;
  return g.offerTls;
}
static void setupClient(const Prof &P, Cl &c, int idx, bool allowFaults) {
  CKind k = (CKind)CH.pick({P.wPlain, P.wOpp, P.wForced});
  c.b = newBox(k, CH.draw(3) == 2);
  Settings &st = c.b->st;
  int sid = (int)W->servers.size();
  static const char *hn[] = {"mail1.sim", "mail2.sim", "mail3.sim", "mail4.sim"};
  static const int ports[] = {25, 587, 465, 2525};
  Server *v = addServer(hn[sid], 0x0a000001u + (uint32_t)sid, ports[CH.draw(4)] + 10000 * idx);
  st.srv = c.server = sid;
  static const unsigned T[] = {5, 1, 2, 3, 10, 30};
  uint32_t t = CH.draw(9); st.timeoutSet = t < 6 && t > 0; st.timeout = st.timeoutSet ? T[t] : 5;
  if (t == 8) { static const unsigned L[] = {90, 300, 600, 1000}; st.timeoutSet = true; st.timeout = L[CH.draw(4)]; W->maxSim = std::max(W->maxSim, (ns_t)600 * st.timeout * SEC); }
  st.batch = CH.chance(P.batch);
  SrvCfg &g = v->cfg;
  g.implicitTls = k == K_FORCED;
  g.offerTls = k == K_OPP ? CH.chance(P.offerTls) : CH.draw(4) == 3 && k == K_PLAIN;
  if (P.mismatch && CH.chance(P.mismatch)) { g.implicitTls = CH.draw(2); c.usable = g.implicitTls == (k == K_FORCED); }
  st.selfOk = k != K_PLAIN && CH.chance(P.selfOk);
  st.byIp = CH.chance(P.byIp);
  if (k != K_PLAIN) {
    static const int trusted[] = {C_VALID, C_VALID, C_INTERMEDIATE, C_MIXED_CASE}; g.cert = st.byIp ? C_IPSAN : trusted[CH.draw(4)];
    if (st.selfOk && P.strict && CH.draw(3) == 2 && !st.byIp) g.cert = C_SELFSIGNED;
    if (P.badCert && CH.chance(P.badCert)) { g.cert = (int)CH.draw(C_COUNT); }
    c.goodCert = certGood(st, g);
  }
  if (CH.chance(P.credRuns)) {
    st.cr = genCreds(); st.cr.pref = CH.draw(2) ? (int)CH.draw(4) : 0;
    v->users[st.cr.user] = st.cr.pass;
    if (P.badCreds && CH.chance(P.badCreds)) { v->users[st.cr.user] = "other" + token(8); c.goodCreds = false; }
  }
  g.authMask = (int)CH.draw(8);
  if (st.cr.set && !(g.authMask & maskOf(st.cr.pref)) && !CH.chance(P.noAuthMech)) g.authMask |= st.cr.pref ? maskOf(st.cr.pref) : 1 << CH.draw(3);
  if (st.cr.set && willAuth(st, g) && !(g.authMask & maskOf(st.cr.pref))) c.usable = false;
  if (willAuth(st, g) && c.usable) g.requireAuth = CH.draw(2);
  if (P.mailFormats && CH.draw(3) == 2) g.mailFormats = 1 + (int)CH.draw(7);
  g.maxDelay = st.timeout >= 2 ? (ns_t)st.timeout * SEC - 1500 * MS : 200 * MS;
  styleServer(g, P.styleRuns);
  if (allowFaults && CH.chance(P.faultRuns)) {
    bool foc = P.focus || CH.draw(3) == 2;
    unsigned total = foc ? lv({300, 600, 950}) : lv({20, 60, 150});
    faultServer(g, total, foc, P.rejectOnly != 0);
  }
  if (P.tlsFault && CH.chance(300)) g.tlsFault = P.tlsFault * 2;
  g.injectPlain = P.inject;
  if (P.perSessionAuth) {
    int pref = st.cr.pref; bool keep = g.requireAuth; bool mostly = P.heal;
    v->onSession = [pref, keep, mostly](Server *, Session *s) { if (mostly ? CH.draw(4) == 3 : CH.draw(2)) { s->cfg.authMask = (int)CH.draw(8); if (keep && !(s->cfg.authMask & maskOf(pref))) s->cfg.requireAuth = false; } };
  }
  if (P.perSessionCert && k != K_PLAIN && CH.draw(4) == 3) {
    int usual = g.cert;
    v->onSession = [usual](Server *, Session *s) { s->cfg.cert = CH.draw(2) ? usual : (int)CH.draw(C_COUNT); };
  }
  if (P.retarget && W->servers.size() < 4 && CH.draw(4) == 3) {
    c.alt = (int)W->servers.size();
    Server *a = addServer(hn[c.alt], 0x0a000001u + (uint32_t)c.alt, v->port);
    a->cfg = v->cfg; a->users = v->users; a->onSession = v->onSession;
  }
  credsOf[c.b->id] = {}; if (st.cr.set) credsOf[c.b->id].push_back(st.cr);
  kindOf[c.b->id] = k;
}
// What programs do with client objects between two sends.
static void changeObject(const Prof &P, Cl &c) {
  ClientBox *b = c.b;
  switch (CH.pick({3, 2, P.objects > 1 ? 3u : 0u, P.objects > 1 ? 2u : 0u, P.objects > 1 ? 2u : 0u})) {
    case 0: {                                             // moved away and back: nothing changes
      ClientBox *x = b->blank();
      Op *o = beginOp("move away", b->id); x->moveFrom(*b); endOp(o);
      o = beginOp("move back", b->id); b->moveAssign(*x); endOp(o);
      destroyBox(x); break;
    }
    case 1: {                                             // assigned from its own copy: the session ends, the settings stay
      ClientBox *x = b->blank();
      Op *o = beginOp("copy", b->id); x->copyFrom(*b); endOp(o);
      o = beginOp("assign the copy", b->id); b->assign(*x); endOp(o);
      destroyBox(x); c.disturbed = true; break;
    }
    case 2: {                                             // another client is assigned to it
      Settings &st = b->st;
      ClientBox *x = b->blank(); x->st = st; x->st.timeoutSet = true;
      uint32_t m = CH.draw(8); if (!m) m = 1;
      if (m & 1 && st.kind != K_PLAIN) x->st.selfOk = !st.selfOk;
      if (m & 2 && st.cr.set) { Creds k = genCreds(); k.pref = st.cr.pref; x->st.cr = k; for (int q : {c.server, c.alt}) if (q >= 0) W->servers[(size_t)q]->users[k.user] = c.goodCreds ? k.pass : "other" + token(8); credsOf[b->id].push_back(k); }
      if (m & 4) { x->st.batch = !st.batch; x->st.timeout = st.timeout * (1 + CH.draw(2)); if (c.alt >= 0) x->st.srv = st.srv == c.server ? c.alt : c.server; }
      credsOf[x->id] = {}; if (x->st.cr.set) credsOf[x->id].push_back(x->st.cr); kindOf[x->id] = st.kind;
      applySettings(x);
      bool moved = CH.draw(2);
      Op *o = beginOp(moved ? "move another client to it" : "assign another client to it", b->id); if (moved) b->moveAssign(*x); else b->assign(*x); endOp(o);
      st = x->st; destroyBox(x);
      c.goodCert = certGood(st, W->servers[(size_t)st.srv]->cfg); c.disturbed = true; break;
    }
    default: {                                            // a copy (or the object it is moved to) takes its place
      bool move = CH.draw(2);
      ClientBox *x = b->blank(); x->st = b->st; credsOf[x->id] = credsOf[b->id]; kindOf[x->id] = kindOf[b->id];
      Op *o = beginOp(move ? "move-construct" : "copy-construct", x->id); if (move) x->moveFrom(*b); else x->copyFrom(*b); endOp(o);
      if (move) for (auto *k : W->conns) if (k->open && k->client == b->id) k->client = x->id;
      if (!move) { c.prevSend = -1; c.disturbed = true; }
      destroyBox(b); c.b = x;
    }
  }
}
static void fileFaultFor(MsgSpec &m) {
  if (m.atts.empty()) { AttSpec a; a.file = (int)CH.draw((uint32_t)poolGood); a.name = "extra" + std::to_string(CH.draw(100)) + ".bin"; m.atts.push_back(a); }
  const PoolFile &f = filePool[(size_t)m.atts[CH.draw((uint32_t)m.atts.size())].file];
  FileFault ff;
  static const int errs[] = {5 /*EIO*/, 13 /*EACCES*/, 24 /*EMFILE*/, 12 /*ENOMEM*/};
  ff.err = errs[CH.draw(4)];
  switch (CH.pick({2, 2, 3, 2, 3, 1})) {
    case 0: ff.kind = F_disk_open_fail; break;
    case 1: ff.kind = F_disk_read_eio; ff.err = 5; ff.at = f.data.empty() ? 0 : CH.draw((uint32_t)f.data.size()); break;
    case 2: ff.kind = F_disk_read_short; ff.at = lv({1, 57, 100, 4000}); break;
    case 3: ff.kind = F_disk_read_eintr; break;
    case 4: ff.kind = F_disk_shrink; ff.at = f.data.empty() ? 0 : CH.draw((uint32_t)f.data.size()); break;
    default: ff.kind = F_disk_seek_fail; ff.err = 29; break;
  }
  W->fileFaults[f.path] = ff;
}
static void transientFile(MsgSpec &m) {
  for (auto &a : m.atts) if (CH.draw(3) == 2) { FileFault ff; ff.kind = CH.draw(2) ? F_disk_read_short : F_disk_read_eintr; ff.at = lv({1, 57, 100, 4000}); W->fileFaults[filePool[(size_t)a.file].path] = ff; }
}

static void judge(int p) {
  if (p != 11) { if (p != 20) checkThrown(fmt("C%02d", p).c_str()); }
  switch (p) {
    case 1: oC01(); break; case 2: oC02(); break; case 3: oC03(); break; case 4: oC04(); break; case 5: oC05(); break;
    case 6: oC06(); break; case 7: oC07(); break; case 8: oC08(); break; case 9: oC09(); break; case 10: oC10(); break;
    case 11: oC11(); break; case 12: oC12(true); break; case 13: oC13(); break; case 14: oC14(); break; case 15: oC15(); break; case 17: oC17(); break;
  }
}
void markNontrivial() {
  unsigned f = 0; for (int i = 0; i < F_COUNT; i++) f += slot->faults[i];
  shapeSummary();
  slot->nontrivial = slot->sends > 0 && (f > 0 || slot->sends > 1);
}
static void runHistory(int p) {
  Prof P = profile(p);
  W->terminalBudget = P.budget;
  int nc = CH.chance(P.second) ? 2 : 1;
  std::vector<Cl> cl((size_t)nc);
  for (int i = 0; i < nc; i++) setupClient(P, cl[(size_t)i], i, true);
  unsigned minT = 1000; for (auto &c : cl) minT = std::min(minT, c.b->st.timeout);
  transient(P.transRuns);
  netStyle(P.netRuns, minT >= 2 ? (ns_t)minT * SEC - 1500 * MS : 200 * MS);
  sysFaults(P.sysRuns, lv({60, 200, 500}));
  if (P.clockJump && CH.draw(4) == 3) W->nf.clockJump = lv({20, 100});
  if (P.bigSkew && CH.draw(5) == 4) {
    bool plainCerts = true; for (auto &c : cl) { int k = W->servers[(size_t)c.server]->cfg.cert; plainCerts &= (certTrusted(k) || k == C_IPSAN) && !W->servers[(size_t)c.server]->onSession; }
    static const int64_t sk[] = {400, -400, 1000, -1000, 60, -60};   // days around the certificates' validity
    if (plainCerts) { W->wallSkew = sk[CH.draw(6)] * 2 * 86400; W->nf.clockJump = 0; }
  }
  bool sysTerminal = W->nf.terminal;
  (void)sysTerminal;
  if (P.heal) W->nf.terminal = true;
  bool anyDown = false;
  int nops = 1 + (int)CH.draw((uint32_t)P.maxOps);
  int msgId = 0;
  if (P.longBatch && CH.draw(100) == 99) { nops = 60 + (int)CH.draw(140); P.rich = RICH_MIN; P.atts = false; P.waits = P.toggle = CH.draw(2); if (!cl[0].created && CH.draw(4)) cl[0].b->st.batch = true; }
  for (int i = 0; i < nops; i++) {
    Cl &c = cl[nc == 1 ? 0 : CH.draw((uint32_t)nc)];
    if (!c.created) { applySettings(c.b); c.created = true; }
    if (P.heal && i > 0) { if (CH.draw(2)) { W->nf.terminal = !W->nf.terminal; if (!W->nf.terminal) { for (auto *v : W->servers) v->down = false; anyDown = false; } tr("server health: %s", W->nf.terminal ? "faulty" : "healed"); } }
    bool live = totalOpenConns(c.b->id) > 0;
    uint32_t what = CH.pick({10, P.toggle ? 2u : 0u, P.idleDrop ? 1u : 0u, P.restart ? 1u : 0u, P.waits ? 1u : 0u, P.credChange ? 1u : 0u, P.retarget && c.alt >= 0 ? 2u : 0u, P.setters ? 1u : 0u, P.objects ? 1u : 0u});
    switch (what) {
      case 0: {
        MsgSpec m = genMsg(++msgId, P.rich, P.atts);
        m.id = (int)msgs.size();
        if (P.bigBody && CH.draw(40) == 39 && !m.nullBody) { size_t n = 50000 + CH.draw(120000); std::string t = "\r\nline of a long body " + token(20 + CH.draw(40)); while (m.body.size() < n) m.body += t; m.body += "\r\nthe end " + token(6); }
        W->fileFaults.clear();
        bool fileOk = true;
        if (P.badFiles && CH.draw(8) == 7) { AttSpec a; a.file = (int)(poolGood + CH.draw(2)); a.name = "gone.txt"; m.atts.insert(m.atts.begin() + CH.draw((uint32_t)m.atts.size() + 1), a); fileOk = false; }
        if (P.diskFaults) { if (P.strict) transientFile(m); else if (CH.draw(4)) fileFaultFor(m); }
        msgs.push_back(m);
        bool healthy = !W->nf.terminal && !W->servers[(size_t)c.b->st.srv]->down && fileOk && W->fileFaults.empty() && c.goodCreds && c.goodCert && c.usable;
        bool und = c.prevSend >= 0 && !c.disturbed;
        int rc = doSend(c.b, (int)msgs.size() - 1, CH.draw(4) == 3 && !m.nullSubject && !m.nullBody);
        SendRec &r = sends.back();
        r.healthy = healthy; r.undisturbed = und;
        if (P.heal && healthy) {
          bool prevFailed = c.prevSend >= 0 && op(sends[(size_t)c.prevSend].op)->rc != 0;
          // a session on which the server offers no mechanism this client may use cannot succeed
          bool noMech = false;
          for (auto &x : W->servers[(size_t)c.b->st.srv]->sessions) noMech |= x->c->client == c.b->id && x->c->opCreated == r.op && willAuth(c.b->st, x->cfg) && !(x->cfg.authMask & maskOf(c.b->st.cr.pref));
          r.mustSucceed = !noMech && (c.prevSend < 0 || prevFailed || (und && sends[(size_t)c.prevSend].mustSucceed));
        }
        c.prevSend = (int)sends.size() - 1; c.disturbed = false;
        if (p == 12) oC12op(sends.back(), c.b);
        (void)rc;
        break;
      }
      case 1: { Op *o = beginOp("setBatchMode", c.b->id); c.b->st.batch = !c.b->st.batch; c.b->setBatch(c.b->st.batch); endOp(o); c.disturbed = true; break; }
      case 2: {
        Server *v = W->servers[(size_t)c.b->st.srv];
        for (auto &s : v->sessions) if (s->c->open && s->c->client == c.b->id && !s->closed) { dropSession(s.get(), CH.draw(3) == 2, CH.draw(2)); c.disturbed = true; break; }
        sleepSim(5 * MS); break;
      }
      case 3: { Server *v = W->servers[(size_t)c.b->st.srv]; if (P.heal && !W->nf.terminal) break; v->down = !v->down; anyDown |= v->down; tr("server%d %s", v->id, v->down ? "down" : "up"); c.disturbed = true;
        if (v->down) for (auto &s : v->sessions) if (!s->closed && s->c->open) dropSession(s.get(), CH.draw(2), false);
        break; }
      case 4: sleepSim((ns_t)CH.draw(400) * SEC); break;
      case 5: {
        if (live || !c.b->st.cr.set) break;
        Creds k = genCreds(); k.pref = c.b->st.cr.pref;
        if (CH.draw(2)) { std::string u = k.user; k.user = c.b->st.cr.user; if (CH.draw(4) == 3) { k.pass = c.b->st.cr.pass; k.user = u; } }   // the same user with another password, another user with the same password
        c.b->st.cr = k; credsOf[c.b->id].push_back(k);
        for (int q : {c.server, c.alt}) if (q >= 0) W->servers[(size_t)q]->users[k.user] = c.goodCreds ? k.pass : "other" + token(8);
        Op *o = beginOp("setCredentials", c.b->id); c.b->setCreds(k); endOp(o); break;
      }
      case 7: {
        Settings &st = c.b->st;
        if (st.kind != K_PLAIN && !P.strict && CH.draw(2)) {
          Op *o = beginOp("setAcceptSelfSignedCert", c.b->id); st.selfOk = !st.selfOk; c.b->setSelf(st.selfOk); endOp(o);
          c.goodCert = certGood(st, W->servers[(size_t)st.srv]->cfg);
        } else {
          if (!c.baseT) c.baseT = st.timeout;
          Op *o = beginOp("setCommandTimeout", c.b->id); st.timeout = c.baseT * (1 + CH.draw(3)); c.b->setTimeout(st.timeout); endOp(o);
        }
        break;
      }
      case 8: changeObject(P, c); break;
      case 6: {
        if (live) break;
        c.b->st.srv = c.b->st.srv == c.server ? c.alt : c.server;
        Op *o = beginOp("setServerName " + hostOf(c.b->st), c.b->id); c.b->setServer(hostOf(c.b->st), (unsigned)W->servers[(size_t)c.b->st.srv]->port); endOp(o); break;
      }
    }
  }
  (void)anyDown;
  for (auto &c : cl) if (c.created) destroyBox(c.b);
  settle();
  judge(p);
}
void run16(); void run18(); void run19(); void run20(); void run24();
void runScenario(int p) {
  credsOf.clear(); kindOf.clear();
  switch (p) {
    case 16: run16(); break;
    case 18: run18(); break;
    case 19: run19(); break;
    case 20: run20(); break;
    case 24: run24(); break;
    default: runHistory(p);
  }
  markNontrivial();
}
