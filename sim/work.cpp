#include <openssl/err.h>
#include <errno.h>
#include "work.h"
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>

std::vector<PoolFile> filePool;
size_t poolGood;
std::vector<MsgSpec> msgs;
std::vector<SendRec> sends;
int nextClientId;
extern std::vector<ForeignUse> foreignUses;

// ---- attachment pool (written once, before any run) ---------------------------
static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void poolInit(const std::string &scratch) {
  struct { const char *name, *mime; size_t n; int style; } t[] = {
    {"a.txt", "text/plain", 12, 0}, {"b.png", "image/png", 0, 0}, {"c.pdf", "application/pdf", 1, 1}, {"d.bin", "", 2, 1}, {"e.zip", "application/zip", 3, 1},
    {"f.jpg", "image/jpeg", 56, 1}, {"g.csv", "text/csv", 57, 2}, {"h.html", "text/html", 58, 2}, {"i.bin", "", 100, 3}, {"j.gif", "image/gif", 380, 1},
    {"k.txt", "text/plain", 511, 2}, {"l.txt", "text/plain", 512, 2}, {"m.mp3", "audio/mpeg", 1000, 1}, {"n.doc", "application/msword", 4095, 1}, {"o.docx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document", 4096, 1},
    {"p.wav", "audio/wav", 8191, 1}, {"q.avi", "video/x-msvideo", 8192, 1}, {"r.xml", "application/xml", 16384, 2}, {"s.rar", "application/x-rar-compressed", 49151, 1}, {"t.odt", "application/vnd.oasis.opendocument.text", 65537, 1}};
  uint64_t s = 42;
  for (auto &x : t) {
    PoolFile f; f.base = x.name; f.path = scratch + "/" + x.name; f.mime = x.mime;
    for (size_t i = 0; i < x.n; i++) {
      s = mix(s + 0x9E3779B97F4A7C15ull);
      char c = (char)s;
      if (x.style == 0) c = "hello world\n"[i % 12];
      if (x.style == 2) c = ".\r\n--sep abc"[s % 12];
      if (x.style == 3) c = 0;
      f.data += c;
    }
    FILE *o = fopen(f.path.c_str(), "wb"); if (!o || fwrite(f.data.data(), 1, f.data.size(), o) != f.data.size()) { perror("pool"); exit(3); } fclose(o);
    filePool.push_back(f);
  }
  poolGood = filePool.size();
  PoolFile m; m.base = "missing.txt"; m.path = scratch + "/missing.txt"; m.mime = "text/plain"; m.missing = true; filePool.push_back(m);
  PoolFile d; d.base = "dir.txt"; d.path = scratch + "/dir.txt"; d.mime = "text/plain"; d.dir = true; mkdir(d.path.c_str(), 0700); filePool.push_back(d);
}

// ---- messages -------------------------------------------------------------------
std::string MsgSpec::brief() const {
  return fmt("msg%d %s to%zu cc%zu bcc%zu subject %zu body %zu att %zu%s", id, html ? "html" : "plain", to.size(), cc.size(), bcc.size(), subject.size(), body.size(), atts.size(), crlf ? " crlf-text" : "");
}
static std::string word(size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)('a' + CH.draw(26)); return s; }
static std::string filler(size_t n, size_t lineLen) {
  std::string s; size_t col = 0; uint32_t k = CH.draw(7919);
  while (s.size() < n) {
    if (lineLen && col >= lineLen && n - s.size() >= 2) { s += "\r\n"; col = 0; continue; }
    s += (char)(33 + (k = (k * 1103515245u + 12345u) & 0x7fffffff) / 7 % 94); col++;
    if (s.back() == '.' && col == 1) s.back() = ':';
  }
  return s;
}
static std::string genName(int rich, bool *crlf) {
  switch (CH.pick({5, 4, 3, (unsigned)(rich == RICH_WILD ? 3 : 1), (unsigned)(rich == RICH_WILD ? 3 : 0), (unsigned)(rich == RICH_WILD ? 2 : 0)})) {
    case 0: return "";
    case 1: return "Jane " + word(1 + CH.draw(8));
    case 2: return "J\xc3\xbcrgen \xe6\x97\xa5\xe6\x9c\xac " + word(3);
    case 3: { static const char *n[] = {"Doe, John", "Team (support)", "a@b", "semi; colon:", "x <y>", "O'Neil \"Buddy\" Al", "back\\slash", "[list]", "J. R. Public", "trailing.", "\"Doe, Jane\"", "\"Doe\" Jane, x", "Doe, 12\"", "\"Doe, Jane", "\"a\\\"", "\"a\\\", b\"", "a, b\\", "\"", "\"\"", "x \"y\"", ",", "\\\"", "\"a\", \"b\"", "no specials here", "<x@y.example>"}; return n[CH.draw(25)]; }
    case 4: { *crlf = true; static const char *n[] = {"Bob\r\nBcc: evil@x.example", "Bob\r\nRCPT TO:<evil@x.example>", "Bob\nX-Evil: 1", "Bob\r\n\r\nEvil body", "Bob\r\n.\r\nQUIT", "Al\rX-Evil: 2", "\r\nDATA"}; return n[CH.draw(7)]; }
    default: return std::string(60 + CH.draw(200), 'n') + " " + word(4);
  }
}
static std::string genAddr(const char *pre, int id) {
  std::string l = std::string(pre) + std::to_string(id) + word(1 + CH.draw(4));
  switch (CH.pick({4, 2, 1, 1})) { case 1: l += "." + word(3); break; case 2: l += "-" + word(2) + "_x"; break; case 3: l += "+tag"; break; default: break; }
  static const char *d[] = {"example.com", "sub.example.org", "ex-ample.net", "mail.co.uk"};
  return l + "@" + d[CH.draw(4)];
}
static std::string genBody(int rich, bool html) {
  switch (CH.pick({4, 3, (unsigned)(rich ? 4 : 1), (unsigned)(rich ? 4 : 0), (unsigned)(rich == RICH_WILD ? 4 : 0), (unsigned)(rich == RICH_WILD ? 2 : 0)})) {
    case 0: return "Hello " + word(5) + ",\r\n\r\nbye";
    case 1: { std::string s; uint32_t n = CH.draw(30); for (uint32_t i = 0; i < n; i++) s += filler(CH.draw(90), 0) + "\r\n"; return s; }
    case 2: {                                         // sizes around the 512-byte pieces the client cuts
      size_t pre = html ? 48 : 49; int d = (int)CH.draw(9) - 4; long want = 512l * (long)CH.range(1, 9) - (long)pre + d;
      static const size_t ll[] = {0, 70, 77, 1}; std::string s = filler((size_t)std::max(1l, want), ll[CH.draw(4)]);
      // sometimes put a special line exactly across the piece boundary
      if (CH.draw(2)) {
        static const char *sp[] = {"\r\n.\r\n", "\r\n..\r\n", "\r\n.x", "\r\n--sep\r\n", "\r\n--sep--\r\n"};
        std::string x = sp[CH.draw(5)]; size_t k = 512 * (1 + CH.draw(4)); size_t off = CH.draw((uint32_t)x.size() + 1);
        if (k > pre + off && k - pre - off + x.size() < s.size()) s.replace(k - pre - off, x.size(), x);
      }
      return s;
    }
    case 3: {                                         // hostile lines
      static const char *l[] = {".", "..", "...", ".hidden", "", ". ", "--sep", "--sep--", "--sep ", "QUIT", "RCPT TO:<evil@x.example>", "MAIL FROM:<evil@x.example>", "DATA", "Subject: other", "Content-Type: text/html", "--", "-- ", "--sep2", "--sepx--", ".\t", "250 ok", "354", "From here", "--sep1", "--sep_1", "--=_sep", "--sep0"};
      std::string s; uint32_t n = 1 + CH.draw(12); static const char *eol[] = {"\r\n", "\r\n", "\r\n", "\n", "\r"};
      for (uint32_t i = 0; i < n; i++) s += std::string(l[CH.draw(27)]) + eol[rich == RICH_WILD ? CH.draw(5) : 0];
      if (CH.draw(2)) s += l[CH.draw(27)];
      return s;
    }
    case 4: { static const char *p[] = {"", ".", "..", "\r\n", "\r\n.\r\n", ".\r\n", "\r\n.", "\n.\n", "\n.\r\n", "\r.\r", "x\r\n.\r\nQUIT\r\n", "\r\n\r\n.\r\n\r\n", ".\r\n.\r\n.", "a\r\n.\r\nMAIL FROM:<e@x.example>\r\n", "\r", "\n", "...\r\n...", "\xff\xfe\x80.\r\n.\xc3"}; std::string s; uint32_t n = 1 + CH.draw(3); for (uint32_t i = 0; i < n; i++) s += p[CH.draw(18)]; return s; }
    default: return filler(5000 + CH.draw(60000), CH.draw(3) ? 76 : 0);
  }
}
MsgSpec genMsg(int id, int rich, bool atts) {
  MsgSpec m; m.id = id;
  m.html = CH.draw(2); m.multi = CH.draw(2);
  m.from = {genAddr("from", id), genName(rich, &m.crlf)};
  uint32_t nto = 1, ncc = 0, nbcc = 0;
  if (rich) { nto = 1 + CH.pick({6, 3, 2, 1}); ncc = CH.pick({5, 3, 1, 1}); nbcc = CH.pick({5, 3, 1, 1}); if (rich == RICH_WILD && CH.draw(20) == 19) { nto = 10 + CH.draw(30); m.multi = true; } }
  if (!m.multi) { nto = 1; ncc = std::min(ncc, 1u); nbcc = std::min(nbcc, 1u); }
  for (uint32_t i = 0; i < nto; i++) m.to.push_back({genAddr("to", id * 100 + (int)i), genName(rich, &m.crlf)});
  for (uint32_t i = 0; i < ncc; i++) m.cc.push_back({genAddr("cc", id * 100 + (int)i), genName(rich, &m.crlf)});
  for (uint32_t i = 0; i < nbcc; i++) m.bcc.push_back({genAddr("bcchidden", id * 100 + (int)i), CH.draw(3) == 2 ? "Hidden " + word(3) : ""});
  if (rich == RICH_WILD && nto > 1 && CH.draw(6) == 5) m.to[1] = m.to[0];
  if (rich == RICH_WILD && ncc && CH.draw(8) == 7) m.cc[0].addr = m.to[0].addr;
  if (rich && (nto > 1 || ncc || nbcc) && CH.draw(8) == 7) {     // addresses that nearly agree are different mailboxes
    std::string a = m.to[0].addr; size_t at_ = a.find('@');
    switch (CH.draw(4)) { case 0: for (size_t i = 0; i < at_; i++) a[i] = (char)toupper((unsigned char)a[i]); break; case 1: a[0] = (char)toupper((unsigned char)a[0]); break; case 2: a = a.substr(0, at_) + "+x" + a.substr(at_); break; default: a = a.substr(0, at_ - 1) + a.substr(at_); break; }
    if (nbcc && CH.draw(2)) m.bcc.back().addr = a; else if (ncc && CH.draw(2)) m.cc.back().addr = a; else if (nto > 1) m.to.back().addr = a; else if (ncc) m.cc.back().addr = a; else m.bcc.back().addr = a;
  }
  switch (CH.pick({6, 2, (unsigned)(rich ? 2 : 0), (unsigned)(rich == RICH_WILD ? 3 : 0), (unsigned)(rich == RICH_WILD ? 1 : 0), (unsigned)(rich ? 1 : 0)})) {
    case 0: m.subject = fmt("Subject %d ", id) + word(4); break;
    case 1: m.subject = ""; break;
    case 2: m.subject = "\xe2\x9c\x93 \xc3\xa9t\xc3\xa9: a=b; <c> \"d\" " + word(2); break;
    case 3: { m.crlf = true; static const char *n[] = {"Hi\r\nBcc: evil@x.example", "Hi\nX-Evil: 1", "Hi\r\n\r\nfake body\r\n", "Hi\r\n.\r\nMAIL FROM:<evil@x.example>\r\n", "\r\n", "Hi\rX: y", "Hi\r\n Content-Type: x"}; m.subject = n[CH.draw(7)]; break; }
    case 4: m.subject = std::string(400 + CH.draw(900), 's') + word(3); break;
    default: m.nullSubject = true; break;
  }
  m.body = genBody(rich, m.html);
  if (rich && CH.draw(25) == 24) { m.nullBody = true; m.body.clear(); }
  if (atts && rich) {
    uint32_t n = CH.pick({6, 3, 1, 1});
    for (uint32_t i = 0; i < n; i++) {
      AttSpec a; a.file = (int)CH.draw((uint32_t)poolGood);
      if (filePool[(size_t)a.file].data.size() > 20000 && CH.draw(4)) a.file = 0;
      switch (CH.pick({4, 2, 1, (unsigned)(rich == RICH_WILD ? 1 : 0), (unsigned)(rich == RICH_WILD ? 1 : 0)})) {
        case 0: a.name = fmt("file%u_", i) + filePool[(size_t)a.file].base; break;
        case 1: a.name = "r\xc3\xa9sum\xc3\xa9 " + word(3) + ".dat"; break;
        case 2: a.name = ""; break;
        case 3: { m.crlf = true; static const char *x[] = {"a\r\nX-Evil: 1", "a\r\n\r\nevil", "x\"\r\n--sep\r\n", "n\nm.txt"}; a.name = x[CH.draw(4)]; break; }
        default: { static const char *x[] = {"say \"hi\".txt", "back\\slash.txt", "semi;colon=1.txt"}; a.name = x[CH.draw(3)]; break; }
      }
      switch (CH.pick({4, 2, (unsigned)(rich == RICH_WILD ? 1 : 0)})) { case 1: a.cid = "cid" + word(4) + "@x"; break; case 2: m.crlf = true; a.cid = "c\r\nX-Evil: 1"; break; default: break; }
      m.atts.push_back(a);
    }
  }
  return m;
}
std::unique_ptr<jed_utils::Message> buildC(const MsgSpec &m) {
  using namespace jed_utils;
  LibScope ls(libClient);
  std::vector<MessageAddress> to, cc, bcc; std::vector<Attachment> at;
  for (auto &a : m.to) to.emplace_back(a.addr.c_str(), a.name.c_str());
  for (auto &a : m.cc) cc.emplace_back(a.addr.c_str(), a.name.c_str());
  for (auto &a : m.bcc) bcc.emplace_back(a.addr.c_str(), a.name.c_str());
  for (auto &a : m.atts) { const PoolFile &f = filePool[(size_t)a.file]; at.emplace_back(f.path.c_str(), a.name.c_str(), a.cid.c_str()); }
  MessageAddress from(m.from.addr.c_str(), m.from.name.c_str());
  const char *su = m.nullSubject ? nullptr : m.subject.c_str(), *bo = m.nullBody ? nullptr : m.body.c_str();
  const Attachment *ap = at.empty() ? nullptr : at.data();
  if (m.multi) {
    const MessageAddress *c = cc.empty() ? nullptr : cc.data(), *b = bcc.empty() ? nullptr : bcc.data();
    if (m.html) return std::make_unique<HTMLMessage>(from, to.data(), to.size(), su, bo, c, cc.size(), b, bcc.size(), ap, at.size());
    return std::make_unique<PlaintextMessage>(from, to.data(), to.size(), su, bo, c, cc.size(), b, bcc.size(), ap, at.size());
  }
  const MessageAddress *c = cc.empty() ? nullptr : &cc[0], *b = bcc.empty() ? nullptr : &bcc[0];
  if (m.html) return std::make_unique<HTMLMessage>(from, to[0], su, bo, c, b, ap, at.size());
  return std::make_unique<PlaintextMessage>(from, to[0], su, bo, c, b, ap, at.size());
}
std::unique_ptr<jed_utils::Message> buildCpp(const MsgSpec &m) {
  namespace P = jed_utils::cpp;
  LibScope ls(libClient);
  std::vector<P::MessageAddress> to, cc, bcc; std::vector<P::Attachment> at;
  for (auto &a : m.to) to.emplace_back(a.addr, a.name);
  for (auto &a : m.cc) cc.emplace_back(a.addr, a.name);
  for (auto &a : m.bcc) bcc.emplace_back(a.addr, a.name);
  for (auto &a : m.atts) { const PoolFile &f = filePool[(size_t)a.file]; at.emplace_back(f.path, a.name, a.cid); }
  P::MessageAddress from(m.from.addr, m.from.name);
  if (m.html) { P::HTMLMessage x(from, to, m.subject, m.body, cc, bcc, at); return std::make_unique<jed_utils::HTMLMessage>(jed_utils::HTMLMessage(x)); }
  P::PlaintextMessage x(from, to, m.subject, m.body, cc, bcc, at);
  return std::make_unique<jed_utils::PlaintextMessage>(jed_utils::PlaintextMessage(x));
}

// ---- client boxes -----------------------------------------------------------------
static void setSelfOn(jed_utils::SmtpClient &, bool) {}
static void setSelfOn(jed_utils::cpp::SmtpClient &, bool) {}
template <class T> static auto setSelfOn(T &c, bool v) -> decltype(c.setAcceptSelfSignedCert(v)) { c.setAcceptSelfSignedCert(v); }
static bool getSelfOf(jed_utils::SmtpClient &) { return false; }
static bool getSelfOf(jed_utils::cpp::SmtpClient &) { return false; }
template <class T> static auto getSelfOf(T &c) -> decltype(c.getAcceptSelfSignedCert()) { return c.getAcceptSelfSignedCert(); }
static std::string S(const char *p) { return p ? p : ""; }
static std::string S(const std::string &s) { return s; }
template <class T, bool CPP> struct Box : ClientBox {
  T *c = nullptr;
  void create() override { LibScope l(id); c = CPP ? new T(hostOf(st).c_str(), (unsigned)W->servers[(size_t)st.srv]->port) : new T(hostOf(st).c_str(), (unsigned)W->servers[(size_t)st.srv]->port); }
  void destroy() override { LibScope l(id); T *x = c; c = nullptr; delete x; }
  bool alive() const override { return c != nullptr; }
  void setServer(const std::string &h, unsigned port) override { LibScope l(id); c->setServerName(h.c_str()); c->setServerPort(port); }
  void setTimeout(unsigned t) override { LibScope l(id); c->setCommandTimeout(t); }
  void setBatch(bool b) override { LibScope l(id); c->setBatchMode(b); }
  void setCreds(const Creds &k) override {
    LibScope l(id);
    auto pref = (jed_utils::RecommendedAuthenticationMethod)k.pref;
    if constexpr (CPP) { if (k.pref) c->setCredentials(jed_utils::cpp::Credential(k.user, k.pass, pref)); else c->setCredentials(jed_utils::cpp::Credential(k.user, k.pass)); }
    else { if (k.pref) c->setCredentials(jed_utils::Credential(k.user.c_str(), k.pass.c_str(), pref)); else c->setCredentials(jed_utils::Credential(k.user.c_str(), k.pass.c_str())); }
  }
  void setSelf(bool v) override { LibScope l(id); setSelfOn(*c, v); }
  int send(const jed_utils::Message &m) override { LibScope l(id); return c->sendMail(m); }
  std::string log() override { return S(c->getCommunicationLog()); }
  std::string describe() override {
    std::string s = fmt("%s:%u batch=%d timeout=%u self=%d", S(c->getServerName()).c_str(), c->getServerPort(), c->getBatchMode(), c->getCommandTimeout(), getSelfOf(*c));
    if (auto *k = c->getCredentials()) s += fmt(" user=%s pass=%s pref=%d", S(k->getUsername()).c_str(), S(k->getPassword()).c_str(), (int)k->getRecommendedAuthOption());
    return s;
  }
  ClientBox *blank() override { auto *b = new Box; b->id = ++nextClientId; return b; }
  void copyFrom(ClientBox &o) override { st = o.st; LibScope l(id); c = new T(*static_cast<Box &>(o).c); }
  void moveFrom(ClientBox &o) override { st = o.st; LibScope l(id); c = new T(std::move(*static_cast<Box &>(o).c)); }
  void assign(ClientBox &o) override { st = o.st; LibScope l(id); *c = *static_cast<Box &>(o).c; }
  void moveAssign(ClientBox &o) override { st = o.st; LibScope l(id); *c = std::move(*static_cast<Box &>(o).c); }
};
ClientBox *newBox(CKind k, bool cpp) {
  ClientBox *b;
  using namespace jed_utils;
  if (k == K_PLAIN) b = cpp ? (ClientBox *)new Box<jed_utils::cpp::SmtpClient, true> : new Box<SmtpClient, false>;
  else if (k == K_OPP) b = cpp ? (ClientBox *)new Box<jed_utils::cpp::OpportunisticSecureSMTPClient, true> : new Box<OpportunisticSecureSMTPClient, false>;
  else b = cpp ? (ClientBox *)new Box<jed_utils::cpp::ForcedSecureSMTPClient, true> : new Box<ForcedSecureSMTPClient, false>;
  b->id = ++nextClientId; b->st.kind = k; b->st.cpp = cpp;
  return b;
}
const char *kindName(const Settings &s) {
  static const char *n[] = {"SmtpClient", "OpportunisticSecureSMTPClient", "ForcedSecureSMTPClient", "cpp::SmtpClient", "cpp::OpportunisticSecureSMTPClient", "cpp::ForcedSecureSMTPClient"};
  return n[s.kind + (s.cpp ? 3 : 0)];
}
std::string hostOf(const Settings &s) {
  Server *v = W->servers[(size_t)s.srv];
  if (s.byIp) return fmt("%u.%u.%u.%u", v->ip >> 24, v->ip >> 16 & 255, v->ip >> 8 & 255, v->ip & 255);
  return v->host;
}

// ---- world ------------------------------------------------------------------------
extern std::string scratchDir;
void newWorld(bool tracing) {
  W = new World;
  W->tracing = tracing;
  W->scratch = scratchDir;
  auto *root = new Actor; sem_init(&root->sem, 0, 0);
  W->actors.push_back(root); W->cur = root; me = root; root->started = true;
  H = History(); foreignUses.clear(); msgs.clear(); sends.clear(); nextClientId = 0;
  memReset(); forgetStatics(); forgetShared();
  W->active = true;
}
uint64_t sendBudget = 0;
Op *beginOp(const std::string &what, int client, int msg) {
  auto o = std::make_unique<Op>(); o->id = (int)W->ops.size() + 1; o->actor = me->id; o->client = client; o->what = what; o->msg = msg; o->t0 = W->now;
  W->ops.push_back(std::move(o));
  Op *p = W->ops.back().get();
  me->curOp = p->id;
  libWork = 0; libWorkLimit = 1000000000;
  slot->ops++;
  tr("BEGIN %s client%d", what.c_str(), client);
  // what other code of the program left behind in this thread
  if (W->nf.stale && CH.chance(W->nf.stale)) {
    fired(F_stale_errors); uint32_t n = 1 + CH.draw(3);
    static const int E[] = {EINTR, EAGAIN, ECONNRESET, EPIPE, ETIMEDOUT, EBADF, EINPROGRESS};
    for (uint32_t i = 0; i < n; i++) { ERR_new(); ERR_set_error(CH.draw(2) ? ERR_LIB_SSL : ERR_LIB_X509, 100 + (int)CH.draw(40), nullptr); }
    errno = E[CH.draw(7)];
  }
  return p;
}
void endOp(Op *o) {
  o->t1 = W->now; o->done = true; libWorkLimit = UINT64_MAX;
  tr("END %s client%d rc=%d", o->what.c_str(), o->client, o->rc);
  me->curOp = 0;
  if (slot->sample[0] == 0 || strlen(slot->sample) < 3500) {
    size_t n = strlen(slot->sample);
    snprintf(slot->sample + n, sizeof slot->sample - n, "%.3fs op%d client%d %s rc=%d; ", o->t1 / 1e9, o->id, o->client, o->what.c_str(), o->rc);
  }
}
int doSendObj(ClientBox *c, int msg, const jed_utils::Message &m) {
  bool live = totalOpenConns(c->id) > 0;
  Op *o = beginOp("send(" + msgs[(size_t)msg].brief() + ")", c->id, msg);
  SendRec r; r.op = o->id; r.client = c->id; r.msg = msg; r.st = c->st; r.liveBefore = live; sends.push_back(r);
  slot->sends++;
  if (sendBudget) libWorkLimit = sendBudget;
  try { o->rc = c->send(m); }
  catch (const std::bad_alloc &e) { o->threw = true; o->exc = "std::bad_alloc"; o->rc = -9998; }
  catch (const std::exception &e) { o->threw = true; o->exc = e.what(); o->rc = -9999; }
  catch (...) { o->threw = true; o->exc = "unknown exception"; o->rc = -9999; }
  o->log = c->log();
  endOp(o);
  return o->rc;
}
int doSend(ClientBox *c, int msg, bool cppMsg) {
  auto m = cppMsg ? buildCpp(msgs[(size_t)msg]) : buildC(msgs[(size_t)msg]);
  int rc = doSendObj(c, msg, *m);
  { LibScope l(c->id); m.reset(); }
  return rc;
}
void applySettings(ClientBox *c) {
  Op *o = beginOp(fmt("create %s -> %s", kindName(c->st), hostOf(c->st).c_str()), c->id);
  c->create();
  if (c->st.timeoutSet) c->setTimeout(c->st.timeout);
  if (c->st.batch) c->setBatch(true);
  if (c->st.cr.set) c->setCreds(c->st.cr);
  if (c->st.selfOk && c->st.kind != K_PLAIN) c->setSelf(true);
  endOp(o);
}
void destroyBox(ClientBox *c) {
  if (!c->alive()) return;
  Op *o = beginOp("destroy", c->id);
  c->destroy();
  endOp(o);
}
void sleepSim(ns_t d) { blockUntil([]() { return false; }, W->now + d); }
void settle() {
  for (int i = 0; i < 2000000 && !W->heap.empty(); i++) { if (W->heap.front().t > W->now) W->now = W->heap.front().t; runDue(); }
}
int totalOpenConns(int client) { int n = 0; for (auto *c : W->conns) if (c->open && (client < 0 || c->client == client)) n++; return n; }

// ---- MIME parsing (lenient about form, strict about content) -------------------------
static bool ieq(const std::string &a, const std::string &b) { return upper(a) == upper(b); }
static std::string trimWs(std::string s) { while (!s.empty() && strchr(" \t\r\n", s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && strchr(" \t\r\n", s[i])) i++; return s.substr(i); }
static std::string trimEol(std::string s) { while (!s.empty() && (s.back() == '\r' || s.back() == '\n')) s.pop_back(); return s; }
static std::string squash(const std::string &s) { std::string o; for (char c : s) if (!strchr(" \t\r\n", c) || !c) o += c; return o; }
static size_t parseHeaders(const std::string &t, size_t pos, std::vector<std::pair<std::string, std::string>> *h, std::string *err) {
  for (;;) {
    if (pos >= t.size()) return pos;
    size_t e = t.find("\r\n", pos);
    std::string l = t.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
    pos = e == std::string::npos ? t.size() : e + 2;
    if (l.empty()) return pos;
    if ((l[0] == ' ' || l[0] == '\t') && !h->empty()) { h->back().second += l; continue; }
    size_t c = l.find(':');
    if (c == std::string::npos || c == 0) { *err = "malformed header line \"" + esc(l, 60) + "\""; return pos; }
    for (size_t i = 0; i < c; i++) if (l[i] <= 32 || l[i] == 127) { *err = "malformed header line \"" + esc(l, 60) + "\""; return pos; }
    std::string v = l.substr(c + 1); if (!v.empty() && v[0] == ' ') v.erase(0, 1);
    h->push_back({l.substr(0, c), v});
  }
}
static const std::string *findHdr(const std::vector<std::pair<std::string, std::string>> &h, const char *n) { for (auto &x : h) if (ieq(x.first, n)) return &x.second; return nullptr; }
// parameter value: token or quoted string
static bool param(const std::string &v, const char *name, std::string *out) {
  size_t i = 0; bool first = true;
  while (i < v.size()) {
    size_t st = i; std::string key, val; bool q = false, eq = false;
    for (; i < v.size(); i++) {
      char c = v[i];
      if (q) { if (c == '\\' && i + 1 < v.size()) { val += v[++i]; continue; } if (c == '"') { q = false; continue; } val += c; continue; }
      if (c == ';') break;
      if (eq) { if (c == '"') { q = true; continue; } if (c == ' ' || c == '\t') continue; val += c; }
      else if (c == '=') eq = true; else key += c;
    }
    i++;
    (void)st;
    if (!first && eq && ieq(trimWs(key), name)) { *out = val; return true; }
    first = false;
  }
  return false;
}
static std::string typeOf(const std::string &v) { return trimWs(v.substr(0, v.find(';'))); }
Mail parseMail(const std::string &t) {
  Mail m;
  size_t pos = parseHeaders(t, 0, &m.hdr, &m.err);
  if (!m.err.empty()) return m;
  const std::string *ct = findHdr(m.hdr, "Content-Type");
  if (!ct) { m.err = "no Content-Type header"; return m; }
  if (upper(*ct).compare(0, 10, "MULTIPART/")) { Mail::Part p; p.hdr = m.hdr; p.body = t.substr(pos); m.parts.push_back(p); return m; }
  if (!param(*ct, "boundary", &m.boundary) || m.boundary.empty()) { m.err = "multipart without boundary"; return m; }
  std::string rest = "\r\n" + t.substr(pos), d = "\r\n--" + m.boundary;
  size_t p = 0; bool open = false; size_t start = 0;
  for (;;) {
    size_t f = rest.find(d, p);
    bool close = false; size_t e = 0;
    while (f != std::string::npos) {
      size_t k = f + d.size(); close = false;
      if (rest.compare(k, 2, "--") == 0) { close = true; k += 2; }
      while (k < rest.size() && (rest[k] == ' ' || rest[k] == '\t')) k++;
      if (k == rest.size() || rest.compare(k, 2, "\r\n") == 0) { e = k; break; }
      f = rest.find(d, f + 2);
    }
    if (f == std::string::npos) {
      if (open) { Mail::Part q; size_t b = parseHeaders(rest, start, &q.hdr, &m.err); q.body = rest.substr(b); m.parts.push_back(q); }
      return m;
    }
    if (open) {
      Mail::Part q; std::string seg = rest.substr(start, f > start ? f - start : 0);
      size_t b = parseHeaders(seg, 0, &q.hdr, &m.err); if (!m.err.empty()) return m;
      q.body = b <= seg.size() ? seg.substr(b) : ""; m.parts.push_back(q);
    }
    if (close) return m;
    open = true; start = std::min(rest.size(), e + 2); p = e;
  }
}
struct PAddr { std::string name, addr; };
static std::vector<PAddr> parseAddrs(const std::string &v, std::string *err) {
  std::vector<PAddr> o; std::string cur; std::string name; bool q = false, ang = false, any = false, wasQ = false; std::string addr;
  auto flush = [&]() {
    PAddr a; if (!addr.empty() || any) { if (addr.empty()) a.addr = trimWs(cur); else { a.addr = trimWs(addr); a.name = wasQ ? cur : trimWs(cur); } if (wasQ) a.name = trimWs(a.name); o.push_back(a); }
    cur.clear(); addr.clear(); any = false; wasQ = false; };
  for (size_t i = 0; i < v.size(); i++) {
    char c = v[i];
    if (q) { if (c == '\\' && i + 1 < v.size()) { cur += v[++i]; continue; } if (c == '"') { q = false; continue; } cur += c; continue; }
    if (ang) { if (c == '>') { ang = false; continue; } if (c == '<') { *err = "nested <"; return o; } addr += c; continue; }
    if (c == '"') { q = true; any = true; wasQ = true; continue; }
    if (c == '<') { if (!addr.empty()) { *err = "two addresses in one entry"; return o; } ang = true; any = true; continue; }
    if (c == '>' || c == ';' || c == '(' || c == ')' || c == '[' || c == ']' || c == ':') { *err = std::string("unquoted special '") + c + "'"; return o; }
    if (c == ',') { flush(); continue; }
    if (!addr.empty() && !strchr(" \t", c)) { *err = "text behind the address"; return o; }
    if (c != ' ' && c != '\t') any = true;
    cur += c;
  }
  if (q || ang) { *err = "unterminated quote or <"; return o; }
  flush();
  return o;
}
static bool textEq(const std::string &want, const std::string &got) {
  if (want.find_first_of("\r\n") != std::string::npos) return squash(want) == squash(got);
  return trimWs(want) == trimWs(got);
}
// a display name that is already a quoted string stands for what it quotes
static bool nameEq(const std::string &want, const std::string &got) {
  if (textEq(want, got)) return true;
  std::string w = trimWs(want), u;
  if (w.size() < 2 || w[0] != '"' || w.back() != '"') return false;
  for (size_t i = 1; i + 1 < w.size(); i++) {
    if (w[i] == '"') return false;
    if (w[i] == '\\') { if (++i + 1 >= w.size()) return false; }
    u += w[i];
  }
  return textEq(u, got);
}
static std::string cmpAddrs(const char *h, const std::vector<AddrSpec> &want, const std::string *v) {
  if (want.empty()) return v ? fmt("unexpected %s header", h) : "";
  if (!v) return fmt("no %s header", h);
  std::string err; auto got = parseAddrs(*v, &err);
  if (!err.empty()) return fmt("%s header cannot be read (%s): %s", h, err.c_str(), esc(*v, 120).c_str());
  if (got.size() != want.size()) return fmt("%s header has %zu addresses instead of %zu: %s", h, got.size(), want.size(), esc(*v, 120).c_str());
  for (size_t i = 0; i < want.size(); i++) {
    if (got[i].addr != want[i].addr) return fmt("%s address %zu is \"%s\" instead of \"%s\"", h, i, esc(got[i].addr, 60).c_str(), want[i].addr.c_str());
    if (!nameEq(want[i].name, got[i].name)) return fmt("%s display name %zu is \"%s\" instead of \"%s\"", h, i, esc(got[i].name, 60).c_str(), esc(want[i].name, 60).c_str());
  }
  return "";
}
static std::string unqp(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '=' && s.compare(i + 1, 2, "\r\n") == 0) { i += 2; continue; }
    if (s[i] == '=' && i + 2 < s.size() && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2])) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; continue; }
    o += s[i];
  }
  return o;
}
static std::string diffAt(const std::string &w, const std::string &g) {
  size_t i = 0; while (i < w.size() && i < g.size() && w[i] == g[i]) i++;
  return fmt("%zu bytes instead of %zu, first difference at %zu: \"%s\" instead of \"%s\"", g.size(), w.size(), i, esc(g.substr(i > 8 ? i - 8 : 0, 40)).c_str(), esc(w.substr(i > 8 ? i - 8 : 0, 40)).c_str());
}
std::string compareMail(const MsgSpec &s, const std::string &content) {
  Mail m = parseMail(content);
  if (!m.err.empty()) return "the content cannot be parsed: " + m.err;
  static const char *known[] = {"From", "To", "Cc", "Subject", "Content-Type", "MIME-Version", "Date", "Message-ID", "Content-Transfer-Encoding"};
  std::map<std::string, int> seen;
  for (auto &h : m.hdr) {
    bool k = false; for (auto *n : known) k |= ieq(h.first, n);
    if (!k) return "unexpected header \"" + esc(h.first, 40) + ": " + esc(h.second, 40) + "\"";
    if (seen[upper(h.first)]++) return "header " + h.first + " occurs twice";
  }
  std::string e;
  if (!(e = cmpAddrs("From", {s.from}, findHdr(m.hdr, "From"))).empty()) return e;
  if (!(e = cmpAddrs("To", s.to, findHdr(m.hdr, "To"))).empty()) return e;
  if (!(e = cmpAddrs("Cc", s.cc, findHdr(m.hdr, "Cc"))).empty()) return e;
  const std::string *su = findHdr(m.hdr, "Subject");
  std::string want = s.nullSubject ? "" : s.subject;
  if (!su && !trimWs(want).empty()) return "no Subject header";
  if (su && !textEq(want, *su)) return "Subject is \"" + esc(*su, 60) + "\" instead of \"" + esc(want, 60) + "\"";
  if (m.parts.size() != 1 + s.atts.size()) return fmt("the content has %zu parts instead of %zu", m.parts.size(), 1 + s.atts.size());
  static const char *pk[] = {"Content-Type", "Content-Disposition", "Content-Transfer-Encoding", "Content-ID", "X-Attachment-Id"};
  for (size_t i = 0; i < m.parts.size(); i++) {
    if (m.boundary.empty()) break;
    std::map<std::string, int> sn;
    for (auto &h : m.parts[i].hdr) {
      bool k = false; for (auto *n : pk) k |= ieq(h.first, n);
      if (!k) return fmt("unexpected header in part %zu: \"", i) + esc(h.first, 40) + ": " + esc(h.second, 40) + "\"";
      if (sn[upper(h.first)]++) return "part header " + h.first + " occurs twice";
    }
  }
  const std::string *ct = findHdr(m.parts[0].hdr, "Content-Type");
  if (!ct || !ieq(typeOf(*ct), s.html ? "text/html" : "text/plain")) return "the body's type is \"" + esc(ct ? *ct : "", 40) + "\"";
  std::string body = m.parts[0].body; const std::string *te = findHdr(m.parts[0].hdr, "Content-Transfer-Encoding");
  if (te && ieq(trimWs(*te), "base64")) { std::string o; if (!unb64(body, &o)) return "body is not base64"; body = o; }
  if (te && ieq(trimWs(*te), "quoted-printable")) body = unqp(body);
  if (trimEol(body) != trimEol(s.body)) return "the body text differs: " + diffAt(trimEol(s.body), trimEol(body));
  for (size_t i = 0; i < s.atts.size(); i++) {
    auto &p = m.parts[i + 1]; const PoolFile &f = filePool[(size_t)s.atts[i].file];
    const std::string *t = findHdr(p.hdr, "Content-Type"), *cd = findHdr(p.hdr, "Content-Disposition"), *enc = findHdr(p.hdr, "Content-Transfer-Encoding"), *cid = findHdr(p.hdr, "Content-ID");
    if (!f.mime.empty() && (!t || !ieq(typeOf(*t), f.mime))) return fmt("attachment %zu has type \"%s\" instead of \"%s\"", i, esc(t ? typeOf(*t) : "", 60).c_str(), f.mime.c_str());
    std::string fn; bool has = cd && param(*cd, "filename", &fn);
    if (!has && !s.atts[i].name.empty()) return fmt("attachment %zu has no file name", i);
    if (!textEq(s.atts[i].name, fn)) return fmt("attachment %zu is named \"%s\" instead of \"%s\"", i, esc(fn, 60).c_str(), esc(s.atts[i].name, 60).c_str());
    std::string wc = s.atts[i].cid, gc = cid ? trimWs(*cid) : "";
    if (!gc.empty() && gc[0] == '<' && gc.back() == '>') gc = gc.substr(1, gc.size() - 2);
    if (!textEq(wc, gc)) return fmt("attachment %zu has content id \"%s\" instead of \"%s\"", i, esc(gc, 60).c_str(), esc(wc, 60).c_str());
    std::string data;
    if (enc && ieq(trimWs(*enc), "base64")) { if (!unb64(trimWs(p.body), &data)) return fmt("attachment %zu is not valid base64", i); } else return fmt("attachment %zu is not base64 encoded", i);
    if (data != f.data) return fmt("attachment %zu (%s) differs: ", i, f.base.c_str()) + diffAt(f.data, data);
  }
  return "";
}
std::string compareEnvelope(const MsgSpec &m, const Delivered &d) {
  if (d.from != m.from.addr) return fmt("envelope sender is <%s> instead of <%s>", esc(d.from, 60).c_str(), m.from.addr.c_str());
  std::multiset<std::string> w, g(d.rcpts.begin(), d.rcpts.end());
  for (auto *v : {&m.to, &m.cc, &m.bcc}) for (auto &a : *v) w.insert(a.addr);
  if (w == g) return "";
  for (auto &x : w) if (w.count(x) != g.count(x)) return fmt("envelope recipient <%s> occurs %zu times instead of %zu", x.c_str(), g.count(x), w.count(x));
  for (auto &x : g) if (!w.count(x)) return fmt("unexpected envelope recipient <%s>", esc(x, 60).c_str());
  return "";
}

// ---- history helpers ------------------------------------------------------------------
std::vector<Delivered *> deliveredBy(int o) { std::vector<Delivered *> v; for (auto &d : H.delivered) if (d.opEnd == o) v.push_back(&d); return v; }
bool faultFree(int o) { for (auto &f : H.faults) if (f.op == o && f.kind != "format") return false; return true; }
static Op *opOf(const SendRec &s) { return op(s.op); }
static std::string who(const SendRec &s) { return fmt("call %d (%s, %s%s) ", s.op, kindName(s.st), msgs[(size_t)s.msg].brief().c_str(), s.st.batch ? ", batch" : ""); }
static std::string faultsOf(int o) {
  std::string t;
  for (auto &f : H.faults) if (f.op == o) t += fmt("%s%s at %s%s", t.empty() ? "" : ", ", f.kind.c_str(), stepNames[f.step], f.code ? fmt(" %d", f.code).c_str() : "");
  return t.empty() ? "no server fault" : t;
}
std::string transcript(int conn) {
  std::string o;
  for (auto &e : H.ev) if (e.conn == conn) o += fmt("%c:%s ", e.dir, e.dir == 'D' ? "<content>" : esc(e.text, 40).c_str());
  return o;
}
void checkThrown(const char *prop) {
  for (auto &o : W->ops) if (o->threw) violation(prop, "exception", fmt("call %d %s threw %s (%s)", o->id, o->what.c_str(), o->exc.c_str(), faultsOf(o->id).c_str()));
}
void oC01() {
  for (auto &s : sends) {
    Op *o = opOf(s); auto d = deliveredBy(s.op);
    if (d.size() > 1) violation("C01", "accepted-twice", who(s) + fmt("got its message accepted %zu times", d.size()));
    if (o->rc != 0) continue;
    if (d.empty()) violation("C01", "false-success", who(s) + "reported success but the server accepted no message during the call; " + faultsOf(s.op));
    bool ok = false;
    for (auto &e : H.ev) if (e.dir == 'S' && e.step == S_END && e.opEnd == s.op && e.complete && e.code == 250) ok = true;
    if (!ok) violation("C01", "false-success", who(s) + "reported success although the end of the content was not answered with 250; " + faultsOf(s.op));
    if (d[0]->refusedRcpts) violation("C01", "recipient-refused", who(s) + fmt("reported success although %d recipients were refused", d[0]->refusedRcpts));
    std::string e = compareEnvelope(msgs[(size_t)s.msg], *d[0]);
    if (!e.empty()) violation("C01", "not-complete", who(s) + "reported success but " + e);
    e = compareMail(msgs[(size_t)s.msg], d[0]->content);
    if (!e.empty()) violation("C01", "not-complete", who(s) + "reported success but the accepted content is not the message: " + e);
  }
}
void oC02() {
  for (auto &s : sends) {
    Op *o = opOf(s);
    if (o->rc != 0) violation("C02", "willing-server", who(s) + fmt("failed with %d although the server accepts everything in time; last: ", o->rc) + esc(o->log.size() > 200 ? o->log.substr(o->log.size() - 200) : o->log, 260));
    auto d = deliveredBy(s.op);
    if (d.size() != 1) violation("C02", "not-delivered", who(s) + "reported success but nothing was delivered");
  }
}
void oC03() {
  for (auto &s : sends) {
    if (opOf(s)->rc != 0) continue;
    auto d = deliveredBy(s.op); if (d.empty()) violation("C03", "lost", who(s) + "was successful but nothing was stored");
    std::string e = compareMail(msgs[(size_t)s.msg], d[0]->content);
    if (!e.empty()) violation("C03", "content", who(s) + "stored content differs: " + e);
    if (d[0]->from != msgs[(size_t)s.msg].from.addr) violation("C03", "sender", who(s) + "stored sender differs: " + esc(d[0]->from));
  }
}
void oC04() {
  for (auto &d : H.delivered) {
    const SendRec *s = nullptr; for (auto &x : sends) if (x.op == d.opEnd) s = &x;
    if (!s) violation("C04", "unasked", fmt("a message was delivered during call %d, which is no send", d.opEnd));
    const MsgSpec &m = msgs[(size_t)s->msg];
    std::string e = compareEnvelope(m, d);
    if (!e.empty()) violation("C04", "envelope", who(*s) + e + "; " + faultsOf(s->op));
    if (d.refusedRcpts) violation("C04", "partial", who(*s) + "was delivered although a recipient had been refused");
    for (auto &b : m.bcc) {
      bool shown = false; for (auto *v : {&m.to, &m.cc}) for (auto &a : *v) shown |= a.addr == b.addr;
      if (!shown && (d.content.find(b.addr) != std::string::npos)) violation("C04", "bcc-leak", who(*s) + "the content shows the blind copy recipient " + b.addr);
    }
  }
  for (auto &f : H.faults) {
    if (f.kind != "reject" && f.kind != "garbage" && f.kind != "oversize") continue;
    if (f.step != S_MAIL && f.step != S_RCPT) continue;
    Op *o = op(f.op); if (!o || o->msg < 0) continue;
    if (f.step == S_MAIL && f.code == 501) continue;
    bool content = false; for (auto &e : H.ev) if (e.conn == f.conn && e.opEnd == f.op && (e.dir == 'D' || (e.dir == 'C' && e.step == S_DATA))) content = true;
    if (content && f.kind == "reject") violation("C04", "continued", fmt("call %d submitted the content although the server had answered %d at %s", f.op, f.code, stepNames[f.step]));
    if (o->rc == 0) violation("C04", "refusal-ignored", fmt("call %d reported success although the server answered %s %d at %s", f.op, f.kind.c_str(), f.code, stepNames[f.step]));
  }
}
void oC05() {
  for (auto &v : H.viols) if (!strcmp(v.prop, "C05")) violation("C05", v.kind, fmt("call %d: ", v.op) + v.msg + "; " + faultsOf(v.op));
  for (auto &d : H.delivered) {
    const SendRec *s = nullptr; for (auto &x : sends) if (x.op == d.opEnd) s = &x;
    if (!s) continue;
    Mail m = parseMail(d.content);
    if (!m.err.empty()) violation("C05", "header-text", who(*s) + "message text broke the header section: " + m.err);
    static const char *known[] = {"From", "To", "Cc", "Subject", "Content-Type", "MIME-Version", "Date", "Message-ID", "Content-Transfer-Encoding", "Content-Disposition", "Content-ID", "X-Attachment-Id"};
    auto chk = [&](std::vector<std::pair<std::string, std::string>> &hs) {
      std::set<std::string> seen;
      for (auto &h : hs) {
        bool k = false; for (auto *n : known) k |= ieq(h.first, n);
        if (!k || !seen.insert(upper(h.first)).second) violation("C05", "header-injection", who(*s) + "message text became the header line \"" + esc(h.first + ": " + h.second, 80) + "\"");
      }
    };
    chk(m.hdr);
    if (!m.boundary.empty()) for (auto &p : m.parts) chk(p.hdr);
    const MsgSpec &sp = msgs[(size_t)s->msg];
    if (m.parts.size() != 1 + sp.atts.size()) violation("C05", "part-injection", who(*s) + fmt("message text created %zu parts instead of %zu", m.parts.size(), 1 + sp.atts.size()));
  }
}
static bool windowIn(const std::string &secret, size_t w, const std::string &t, std::string *hit) {
  if (t.empty()) return false;
  if (secret.size() < w) { if (secret.size() >= 4 && t.find(secret) != std::string::npos) { *hit = secret; return true; } return false; }
  for (size_t i = 0; i + w <= secret.size(); i++) { std::string x = secret.substr(i, w); if (t.find(x) != std::string::npos) { *hit = x; return true; } }
  return false;
}
static bool secretIn(const Creds &c, const std::string &t, std::string *hit) {
  if (windowIn(c.pass, 8, t, hit)) return true;
  for (int pre = 0; pre < 3; pre++) {      // base64 at every alignment
    std::string e = b64(std::string((size_t)pre, 'x') + c.pass);
    e = e.substr(pre == 0 ? 0 : pre == 1 ? 2 : 3);
    while (!e.empty() && e.back() == '=') e.pop_back();
    if (e.size() > 2) e.resize(e.size() - 1);
    if (windowIn(e, 8, t, hit)) return true;
  }
  std::string hex, HEX; for (unsigned char ch : c.pass) { hex += fmt("%02x", ch); HEX += fmt("%02X", ch); }
  if (windowIn(hex, 12, t, hit) || windowIn(HEX, 12, t, hit)) return true;
  std::string rev(c.pass.rbegin(), c.pass.rend());
  return windowIn(rev, 8, t, hit);
}
std::map<int, std::vector<Creds>> credsOf;   // client -> every credential it ever had
std::map<int, CKind> kindOf;
void oC06() {
  std::string hit;
  for (auto *v : W->servers) for (auto &p : v->sessions) {
    Session &s = *p;
    int cl = s.c->client; if (cl < 0) continue;
    auto it = credsOf.find(cl); if (it == credsOf.end()) continue;
    if (kindOf[cl] == K_PLAIN) continue;
    std::string clear = s.everTls ? s.plainIn : s.c->rawTx;
    for (auto &cr : it->second) if (secretIn(cr, clear, &hit)) violation("C06", "clear-text", fmt("conn%d of a secure client carried the password in clear (\"%s\")", s.c->id, esc(hit).c_str()));
    for (auto &cr : it->second) if (secretIn(cr, s.plainIn, &hit)) violation("C06", "clear-text", fmt("conn%d of a secure client carried the password outside TLS (\"%s\")", s.c->id, esc(hit).c_str()));
  }
  for (auto &o : W->ops) {
    if (o->log.empty()) continue;
    for (auto &kv : credsOf) for (auto &cr : kv.second) if (secretIn(cr, o->log, &hit)) violation("C06", "log", fmt("call %d %s: the communication log contains the password (\"%s\")", o->id, o->what.c_str(), esc(hit).c_str()));
  }
}
// is this session's certificate acceptable for that client?  1 yes, 0 no, -1 not judged
static int certOk(const Session &s, const Settings &st, int64_t skewAt) {
  bool inTime = skewAt < 2 * 365 * 86400ll - 40 * 86400ll && skewAt > -(365 * 86400ll) + 40 * 86400ll;
  switch (s.cfg.cert) {
    case C_VALID: case C_INTERMEDIATE: case C_MIXED_CASE: return inTime ? (st.byIp ? 0 : 1) : 0;
    case C_IPSAN: return inTime ? 1 : 0;
    case C_CN_ONLY: return st.byIp || !inTime || hostOf(st) != "mail1.sim" ? 0 : -1;   // a common name with no alternative names: allowed, not required
    case C_SELFSIGNED: return st.selfOk ? -1 : 0;
    case C_SELF_EXPIRED: case C_SELF_WRONGHOST: return st.selfOk ? -1 : 0;
    default: return 0;
  }
}
void oC07() {
  for (auto *v : W->servers) for (auto &p : v->sessions) {
    Session &s = *p;
    if (!s.tls && !s.everTls) continue;
    const SendRec *sr = nullptr; for (auto &x : sends) if (x.op == s.c->opCreated) sr = &x;
    if (!sr) continue;
    int64_t skew = s.c->wallSkewAtAccept;
    int ok = certOk(s, sr->st, skew);
    if (ok) continue;
    std::string what = fmt("%s, server name %s%s", certNames[s.cfg.cert], hostOf(sr->st).c_str(), sr->st.selfOk ? ", self-signed accepted" : "");
    if (s.appLinesTls) violation("C07", "unverified-peer", fmt("conn%d: SMTP was spoken over TLS to a peer whose certificate must fail (%s): %s", s.c->id, what.c_str(), esc(s.tlsIn, 80).c_str()));
    if (op(sr->op)->rc == 0) violation("C07", "no-failure", who(*sr) + "succeeded although the peer's certificate must fail: " + what);
  }
}
void oC08() {
  for (auto &v : H.viols) if (!strcmp(v.prop, "C08")) violation("C08", v.kind, fmt("call %d: ", v.op) + v.msg);
  for (auto *v : W->servers) for (auto &p : v->sessions) {
    Session &s = *p;
    int cl = s.c->client; if (cl < 0) continue;
    CKind k = kindOf[cl];
    if (k == K_FORCED) {
      const std::string &r = s.c->rawTx;
      if (!r.empty() && (unsigned char)r[0] != 0x16) violation("C08", "forced-clear", fmt("conn%d: a forced secure client sent \"%s\" outside TLS", s.c->id, esc(r, 60).c_str()));
      // every byte must be in TLS records
      size_t i = 0; while (i + 5 <= r.size()) { unsigned t = (unsigned char)r[i], maj = (unsigned char)r[i + 1]; if (t < 20 || t > 24 || maj != 3) violation("C08", "forced-clear", fmt("conn%d: a forced secure client sent bytes that are not TLS records: \"%s\"", s.c->id, esc(r.substr(i), 60).c_str())); i += 5 + ((unsigned char)r[i + 3] << 8 | (unsigned char)r[i + 4]); }
    }
    if (k == K_OPP && s.offeredTlsSeen) {
      for (auto &e : H.ev) if (e.conn == s.c->id && e.server == v->id && !e.tls && (e.dir == 'D' || (e.dir == 'C' && (e.step == S_MAIL || e.step == S_RCPT || e.step == S_DATA || e.step == S_AUTH)))) {
        if (s.cfg.implicitTls) continue;
        violation("C08", "downgrade", fmt("conn%d: the server offered STARTTLS but the client sent \"%s\" in clear; %s", s.c->id, esc(e.dir == 'D' ? "<content>" : e.text, 60).c_str(), faultsOf(e.opEnd).c_str()));
      }
    }
  }
}
static bool prefAllows(int pref, const std::string &mech) { return pref == 0 || (pref == 1 && mech == "PLAIN") || (pref == 2 && mech == "LOGIN") || (pref == 3 && mech == "XOAUTH2"); }
void oC09() {
  for (auto &a : H.auths) {
    const SendRec *s = nullptr; for (auto &x : sends) if (x.op == a.op) s = &x;
    if (!s) violation("C09", "auth-outside-send", fmt("AUTH during call %d, which is no send", a.op));
    if (!s->st.cr.set) violation("C09", "no-credentials", who(*s) + "authenticated without credentials");
    if (!a.offered) violation("C09", "not-offered", who(*s) + "used " + a.mech + ", which the server did not offer in this session");
    if (!prefAllows(s->st.cr.pref, a.mech)) violation("C09", "preference", who(*s) + fmt("used %s although the credentials' preference is %d", a.mech.c_str(), s->st.cr.pref));
    if (!a.user.empty() && (a.user != s->st.cr.user || a.pass != s->st.cr.pass)) violation("C09", "wrong-credentials", who(*s) + fmt("authenticated as \"%s\"/\"%s\" instead of \"%s\"/\"%s\"", esc(a.user).c_str(), esc(a.pass).c_str(), s->st.cr.user.c_str(), s->st.cr.pass.c_str()));
  }
  for (auto *v : W->servers) for (auto &p : v->sessions) {
    Session &se = *p;
    const SendRec *s = nullptr; for (auto &x : sends) if (x.op == se.c->opCreated) s = &x;
    if (!s || !s->st.cr.set) continue;
    bool mustAuth = s->st.kind != K_OPP || se.everTls;
    bool tried = false, ok = false; bool confirmed = false;
    for (auto &a : H.auths) if (a.conn == se.c->id) { tried = true; ok |= a.accepted; }
    for (auto &e : H.ev) if (e.conn == se.c->id && e.dir == 'S' && e.code == 235 && e.complete) confirmed = true;
    if (!mustAuth && !tried) continue;
    bool mail = false; for (auto &e : H.ev) if (e.conn == se.c->id && e.dir == 'C' && e.step == S_MAIL) mail = true;
    if (mail && !(ok && confirmed)) violation("C09", "unconfirmed", who(*s) + fmt("submitted mail on conn%d although authentication was %s", se.c->id, tried ? "not confirmed" : "skipped"));
    // nothing usable offered: the call has to fail with the documented error
    int mask = se.cfg.authMask; if (!se.tls && !se.everTls && !se.cfg.authOverPlain) mask = 0;
    int allowed = s->st.cr.pref == 0 ? 7 : s->st.cr.pref == 1 ? M_PLAIN : s->st.cr.pref == 2 ? M_LOGIN : s->st.cr.pref == 3 ? M_XOAUTH2 : 0;
    if (mustAuth && !(mask & allowed) && faultFree(s->op) && op(s->op)->faultsHit.empty() && se.ehlo) {
      if (op(s->op)->rc != -84) violation("C09", "unsupported-code", who(*s) + fmt("returned %d instead of -84 although the server offers no usable mechanism", op(s->op)->rc));
    }
  }
}
static ns_t usableTimeout(const Settings &s) { return (ns_t)s.timeout * SEC; }
void oC10() {
  for (auto &o : W->ops) {
    if (!o->done) continue;
    const SendRec *s = nullptr; for (auto &x : sends) if (x.op == o->id) s = &x;
    ns_t T = 0;
    if (s) T = usableTimeout(s->st);
    else { for (auto &x : sends) if (x.client == o->client) T = std::max(T, usableTimeout(x.st)); if (!T) T = 5 * SEC; }
    ns_t dur = o->t1 - o->t0, quiet = 0; int silents = 0, other = 0;
    for (auto &f : H.faults) if (f.op == o->id && f.kind != "format") { if (f.kind == "silent" || f.kind == "partial_silent") silents++; else other++; }
    for (int k : o->faultsHit) if (k == F_connect_blackhole || k == F_tls_stall) silents++;
    (void)quiet;
    ns_t inj = o->injected;
    ns_t bound = inj + 3 * (T + 2 * SEC);
    if (dur > bound) violation("C10", "too-long", fmt("call %d %s took %.1f s with a command timeout of %.0f s (injected delays %.1f s); %s", o->id, o->what.c_str(), dur / 1e9, T / 1e9, inj / 1e9, faultsOf(o->id).c_str()));
    if (silents == 1 && other == 0 && dur > inj + T + 2 * SEC) violation("C10", "more-than-one-timeout", fmt("call %d %s took %.1f s for one silent step with a command timeout of %.0f s (injected delays %.1f s); %s", o->id, o->what.c_str(), dur / 1e9, T / 1e9, inj / 1e9, faultsOf(o->id).c_str()));
  }
}
// ---- C11: code of the failing step ----
static std::set<int> codesOf(int step) {
  switch (step) {
    case S_GREET: return {-3};
    case S_EHLO: return {-20, -21};
    case S_STARTTLS: return {-30, -31};
    case S_TLS: return {-55, -56};
    case S_EHLO2: return {-59, -60};
    case S_AUTH: case S_AUTHUSER: case S_AUTHPASS: return {-81, -82};
    case S_MAIL: return {-85, -86};
    case S_RCPT: return {-87, -88};
    case S_DATA: return {-89, -90};
    case S_CONTENT: return {-91, -92, -93, -94, -95, -96};
    case S_END: return {-97, -98};
    case S_QUIT: return {-99, 0};
  }
  return {};
}
static int timeoutOf(int step) {
  switch (step) { case S_GREET: return -3; case S_EHLO: return -21; case S_STARTTLS: return -31; case S_EHLO2: return -60; case S_AUTH: case S_AUTHUSER: case S_AUTHPASS: return -82; case S_MAIL: return -86; case S_RCPT: return -88; case S_DATA: return -90; case S_END: return -98; }
  return 0;
}
static bool isTimeout(int c) { for (int s = 0; s < S_COUNT; s++) if (s != S_GREET && c && timeoutOf(s) == c) return true; return false; }
static std::string setStr(const std::set<int> &s) { std::string t; for (int x : s) t += fmt("%s%d", t.empty() ? "" : "/", x); return t; }
void oC11() {
  checkThrown("C11");
  for (auto &s : sends) {
    Op *o = opOf(s); int rc = o->rc;
    std::vector<FaultRec *> fs; for (auto &f : H.faults) if (f.op == s.op && f.kind != "format") fs.push_back(&f);
    std::vector<int> sys; for (int k : o->faultsHit) switch (k) {
      case F_dns_fail: case F_socket_fail: case F_fcntl_fail: case F_getsockopt_fail: case F_connect_refused: case F_connect_unreach: case F_connect_blackhole:
      case F_poll_fail: case F_send_fail: case F_recv_fail: case F_ctx_fail: case F_bio_fail: case F_disk_open_fail: case F_disk_missing: case F_disk_read_eio: case F_disk_shrink: case F_alloc_fail: sys.push_back(k); }
    if (fs.size() + sys.size() != 1) continue;     // one cause, one code
    bool staleSession = false;                      // a session dropped between calls is judged by C14, not here
    for (int k : o->faultsHit) if (k == F_drop_session || k == F_server_restart) staleSession = true;
    if (staleSession) continue;
    auto bad = [&](const std::string &want) { violation("C11", "wrong-code", who(s) + fmt("returned %d instead of %s; cause: %s%s", rc, want.c_str(), faultsOf(s.op).c_str(), sys.empty() ? "" : (std::string(", ") + faultNames[sys[0]] + (o->faultNotes.empty() ? "" : " " + o->faultNotes.back())).c_str())); };
    auto in = [&](const std::set<int> &w) { if (!w.count(rc)) bad(setStr(w)); };
    if (!sys.empty()) {
      // last step the server answered on this call's connection
      int last = -1, lastCode = 0; bool established = false; for (auto &e : H.ev) if (e.dir == 'S' && e.complete && e.opEnd == s.op && e.step != S_OTHER && e.t <= o->t1) { last = e.step; lastCode = e.code; }
      for (auto *c : W->conns) if (c->opCreated == s.op && c->st == Conn::Established) established = true;
      switch (sys[0]) {
        case F_dns_fail: in({-6}); break;
        case F_socket_fail: in({-1}); break;
        case F_fcntl_fail: { bool get = false; for (auto &n : o->faultNotes) if (n == "getfl") get = true; if (last < 0) in(get ? std::set<int>{-7} : std::set<int>{-8}); else if (rc >= 0 && rc != 0) bad("a documented error"); break; }
        case F_getsockopt_fail: in({-9}); break;
        case F_connect_refused: case F_connect_unreach: in({-10, -2}); break;
        case F_connect_blackhole: if (s.st.timeout < 120) in({-3}); break;
        case F_ctx_fail: in({-51}); break;
        case F_bio_fail: in({-52}); break;
        case F_poll_fail: case F_send_fail: case F_recv_fail: {
          if (!established && !s.liveBefore) { in({-2}); break; }
          std::set<int> w;
          // the step in progress is the one after the last answered step; allow its neighbours of the same phase
          static const int order[] = {S_GREET, S_EHLO, S_STARTTLS, S_TLS, S_EHLO2, S_AUTH, S_AUTHUSER, S_AUTHPASS, S_MAIL, S_RCPT, S_DATA, S_CONTENT, S_END, S_QUIT};
          int from = 0; for (int i = 0; i < 14; i++) if (order[i] == last) from = i;
          std::vector<int> nx;
          switch (last) {
            case -1: if (s.liveBefore) nx = {S_MAIL}; else nx = {S_GREET, S_TLS}; break;
            case S_GREET: nx = {S_GREET, S_EHLO, S_EHLO2}; if (s.st.kind == K_FORCED) nx.push_back(S_TLS); break;
            case S_EHLO: nx = {S_EHLO, S_STARTTLS, S_AUTH, S_MAIL}; break;
            case S_STARTTLS: nx = {S_STARTTLS, S_TLS, S_EHLO2}; break;
            case S_EHLO2: nx = {S_EHLO2, S_AUTH, S_MAIL}; break;
            case S_AUTH: case S_AUTHUSER: case S_AUTHPASS: nx = {S_AUTH, S_MAIL}; break;
            case S_MAIL: nx = {S_MAIL, S_RCPT}; break;
            case S_RCPT: nx = {S_RCPT, S_DATA}; break;
            case S_DATA: nx = {S_DATA, S_CONTENT, S_END}; break;
            case S_END: nx = {S_END, S_QUIT}; break;
            default: nx = {S_QUIT};
          }
          (void)from;
          for (int x : nx) for (int c : codesOf(x)) if (sys[0] != F_send_fail || !isTimeout(c)) w.insert(c);
          if (last == S_END || last == S_QUIT) w.insert(0);
          if (lastCode >= 400) w.insert(lastCode);   // the server refused (wrong credentials), what failed is the farewell
          in(w); break;
        }
        case F_disk_open_fail: case F_disk_missing: case F_disk_read_eio: case F_disk_shrink: if (rc == 0) bad("a failure"); break;
        default: break;
      }
      continue;
    }
    FaultRec &f = *fs[0]; int st = f.step;
    if (f.kind == "reject") {
      if (st == S_QUIT) { in({0, -99}); continue; }
      std::set<int> w{f.code};
      if (st == S_AUTH || st == S_AUTHUSER || st == S_AUTHPASS) w.insert(-81);
      if (st == S_MAIL && f.code == 501) { if (rc != 0 && rc != 501) bad("0/501"); continue; }
      in(w);
    } else if (f.kind == "need-auth") in({f.code});
    else if (f.kind == "silent" || f.kind == "partial_silent" || f.kind == "trickle" || f.kind == "peer_stall_read") {
      if (st == S_QUIT) { in({0, -99}); continue; }
      in({timeoutOf(st)});
    } else if (f.kind == "close_before" || f.kind == "close_mid" || f.kind == "rst_before" || f.kind == "rst_mid") {
      in(codesOf(st));
    } else if (f.kind == "garbage" || f.kind == "oversize") {
      if (st == S_QUIT) { in({0, -99}); continue; }
      if (rc == 0) bad("a failure");
      if (rc < 0) { auto w = codesOf(st); in(w); }
    } else if (f.kind == "close_after" || f.kind == "rst_after" ) {
      if (st < S_END && rc == 0) bad("a failure");
      if (o->firstHard == 's' && isTimeout(rc)) bad("the code of the transmission error (sending failed)");
      // the failure shows at this step (reset) or at one of the next ones
      if (rc < 0) {
        std::set<int> w; static const std::map<int, std::vector<int>> nx = {{S_GREET, {S_GREET, S_EHLO, S_EHLO2}}, {S_EHLO, {S_EHLO, S_STARTTLS, S_AUTH, S_MAIL}}, {S_STARTTLS, {S_STARTTLS, S_TLS}}, {S_EHLO2, {S_EHLO2, S_AUTH, S_MAIL}},
          {S_AUTH, {S_AUTH, S_MAIL}}, {S_AUTHUSER, {S_AUTH}}, {S_AUTHPASS, {S_AUTH, S_MAIL}}, {S_MAIL, {S_MAIL, S_RCPT}}, {S_RCPT, {S_RCPT, S_DATA}}, {S_DATA, {S_DATA, S_CONTENT, S_END}}, {S_END, {S_END, S_QUIT}}, {S_QUIT, {S_QUIT}}};
        auto it = nx.find(st); if (it != nx.end()) { for (int x : it->second) for (int c : codesOf(x)) w.insert(c); in(w); }
      }
    } else if (f.kind == "unsolicited") {            // the replies are off by one from here on: some documented code
      if (rc < -99 || rc > 999) bad("a documented code");
    } else if (f.kind.compare(0, 4, "tls_") == 0) { in({-55, -56}); }
  }
}
void oC17() {
  for (auto &s : sends) {
    Op *o = opOf(s); auto d = deliveredBy(s.op);
    const MsgSpec &m = msgs[(size_t)s.msg];
    std::string bad;
    for (auto &a : m.atts) { const PoolFile &f = filePool[(size_t)a.file]; if (f.missing || f.dir) bad = f.base + (f.dir ? " is a directory" : " is missing"); }
    for (int k : o->faultsHit) if (k == F_disk_open_fail || k == F_disk_read_eio || k == F_disk_shrink) bad = faultNames[k];
    if (!bad.empty()) {
      if (o->rc == 0) violation("C17", "false-success", who(s) + "reported success although an attachment could not be read completely (" + bad + ")");
      if (!d.empty()) violation("C17", "partial-message", who(s) + "had a message accepted although an attachment could not be read completely (" + bad + ")");
      continue;
    }
    for (auto *x : d) { std::string e = compareMail(m, x->content); if (!e.empty()) violation("C17", "content", who(s) + "delivered: " + e); }
    if (o->rc == 0 && d.empty()) violation("C17", "false-success", who(s) + "reported success but nothing was accepted");
  }
}
void oC12op(const SendRec &s, ClientBox *c) {
  if (s.st.batch) return;
  Op *o = op(s.op);
  for (auto *k : W->conns) if (k->open && k->client == c->id) violation("C12", "descriptor-left", who(s) + fmt("returned %d and left descriptor %d (conn%d) open; ", o->rc, k->fd, k->id) + faultsOf(s.op));
  SslLedger l = sslLive();
  (void)l;
}
void oC12(bool afterDestroy) {
  for (auto &f : foreignUses) violation("C12", "foreign-descriptor", fmt("call %d %s: %s(%d) used %s", f.op, op(f.op) ? op(f.op)->what.c_str() : "", f.call.c_str(), f.fd, f.what.c_str()));
  if (!afterDestroy) return;
  for (auto *k : W->conns) if (k->open) violation("C12", "descriptor-leak", fmt("descriptor %d (conn%d, opened by call %d %s; %s) is still open after the client was destroyed", k->fd, k->id, k->opCreated, op(k->opCreated) ? op(k->opCreated)->what.c_str() : "", faultsOf(k->opCreated).c_str()));
  if (!W->files.empty()) violation("C12", "file-leak", "an attachment file is still open: " + W->files.begin()->second);
  SslLedger l = sslLive();
  if (l.ctx || l.ssl || l.bio) violation("C12", "tls-leak", fmt("TLS objects left after the clients were destroyed: %d contexts, %d sessions, %d BIOs", l.ctx, l.ssl, l.bio));
  if (l.x509) violation("C12", "tls-leak", fmt("%d certificates left after the clients were destroyed", l.x509));
  if (W->liveAddrinfo) violation("C12", "addrinfo-leak", fmt("%d address lists were never freed", W->liveAddrinfo));
  std::string d; size_t n = memOutstanding(&d);
  if (n) violation("C12", "memory-leak", "memory of the library is left after every object was destroyed: " + d);
}
void oC13() {
  // order and multiplicity per client
  std::map<int, std::vector<int>> want, got;
  for (auto &s : sends) if (opOf(s)->rc == 0) want[s.client].push_back(s.op);
  for (auto &d : H.delivered) { int cl = -1; for (auto *c : W->conns) if (c->id == d.conn) cl = c->client; got[cl].push_back(d.opEnd); }
  if (want != got) violation("C13", "order", "the delivered messages are not the successful calls in order");
  std::map<int, Delivered *> byOp; for (auto &d : H.delivered) byOp[d.opEnd] = &d;
  std::map<int, const SendRec *> prev;
  for (auto &s : sends) {
    Delivered *d = byOp.count(s.op) ? byOp[s.op] : nullptr;
    if (d) { std::string e = compareEnvelope(msgs[(size_t)s.msg], *d); if (e.empty()) e = compareMail(msgs[(size_t)s.msg], d->content); if (!e.empty()) violation("C13", "mixed-up", who(s) + e); }
    const SendRec *p = prev.count(s.client) ? prev[s.client] : nullptr;
    if (p && d && byOp.count(p->op)) {
      Delivered *pd = byOp[p->op];
      if (p->st.batch && s.st.batch && s.undisturbed && pd->conn != d->conn) violation("C13", "reconnect", who(s) + fmt("used conn%d although the batch session conn%d was open", d->conn, pd->conn));
      if (!p->st.batch && pd->conn == d->conn) violation("C13", "shared-session", who(s) + fmt("reused conn%d of a message sent without batch mode", d->conn));
    }
    prev[s.client] = opOf(s)->rc == 0 ? &s : nullptr;
  }
  for (auto *v : W->servers) for (auto &p : v->sessions) {
    bool any = false; for (auto &d : H.delivered) any |= d.conn == p->c->id;
    bool failed = false; for (auto &e : H.ev) if (e.conn == p->c->id && e.opEnd > 0 && op(e.opEnd)->msg >= 0 && op(e.opEnd)->rc != 0) failed = true;
    if (any && !failed && !p->quit) violation("C13", "no-quit", fmt("conn%d was not ended with QUIT: %s", p->c->id, transcript(p->c->id).c_str()));
    int a = 0; for (auto &x : H.auths) a += x.conn == p->c->id;
    if (a > 1) violation("C13", "auth-again", fmt("conn%d authenticated %d times", p->c->id, a));
    // QUIT is the last command of the session
    bool q = false; for (auto &e : H.ev) if (e.conn == p->c->id && e.dir == 'C') { if (q) violation("C13", "after-quit", fmt("conn%d: \"%s\" was sent after QUIT", p->c->id, esc(e.text, 40).c_str())); q = e.step == S_QUIT; }
  }
  // non-batch: the session is over when the call returns
  for (auto &s : sends) if (!s.st.batch && opOf(s)->rc == 0) for (auto *c : W->conns) if (c->client == s.client && c->opCreated <= s.op && (c->closedAtOp < 0 || c->closedAtOp > s.op)) violation("C13", "not-ended", who(s) + fmt("left its session conn%d open", c->id));
}
void oC14() {
  for (auto &a : H.auths) if (!a.offered) violation("C14", "stale-capabilities", fmt("call %d authenticated with %s, which only an earlier reply offered", a.op, a.mech.c_str()));
  for (auto &s : sends) {
    if (!s.mustSucceed) continue;
    Op *o = opOf(s);
    std::string why; for (auto &x : sends) if (x.client == s.client && x.op < s.op) why = fmt("previous call %d returned %d (%s)", x.op, opOf(x)->rc, faultsOf(x.op).c_str());
    if (o->rc != 0) violation("C14", "poisoned", who(s) + fmt("failed with %d on a healthy server; ", o->rc) + why);
    auto d = deliveredBy(s.op);
    if (d.size() != 1) violation("C14", "poisoned", who(s) + fmt("got %zu messages delivered; ", d.size()) + why);
    std::string e = compareEnvelope(msgs[(size_t)s.msg], *d[0]); if (e.empty()) e = compareMail(msgs[(size_t)s.msg], d[0]->content);
    if (!e.empty()) violation("C14", "mixed-up", who(s) + e + "; " + why);
    if (s.st.cr.set && (s.st.kind != K_OPP || d[0]->tls) && d[0]->authUser != s.st.cr.user) violation("C14", "auth-state", who(s) + "was delivered without its own authentication; " + why);
  }
}
// ---- C15: the communication log against the recorded session ----
struct LogEntry { char side; std::string text; };
static std::vector<LogEntry> parseLog(const std::string &log) {
  std::vector<LogEntry> v; size_t i = 0;
  while (i <= log.size()) {
    size_t e = log.find('\n', i); std::string l = log.substr(i, e == std::string::npos ? std::string::npos : e - i);
    if (l.compare(0, 3, "c: ") == 0) v.push_back({'c', l.substr(3)});
    else if (l.compare(0, 3, "s: ") == 0) v.push_back({'s', l.substr(3)});
    else if (l.compare(0, 7, "c & s: ") == 0) v.push_back({'b', l.substr(7)});
    else if (!v.empty()) v.back().text += "\n" + l;
    if (e == std::string::npos) break;
    i = e + 1;
  }
  return v;
}
static std::vector<std::string> linesOf(const std::string &t) {
  std::vector<std::string> v; size_t i = 0;
  while (i < t.size()) { size_t e = t.find('\n', i); std::string l = t.substr(i, e == std::string::npos ? std::string::npos : e - i); while (!l.empty() && l.back() == '\r') l.pop_back(); if (!l.empty()) v.push_back(l); if (e == std::string::npos) break; i = e + 1; }
  return v;
}
static bool replyLine(const std::string &l) { return l.size() >= 3 && isdigit((unsigned char)l[0]) && isdigit((unsigned char)l[1]) && isdigit((unsigned char)l[2]); }
void oC15() {
  for (auto &s : sends) {
    Op *o = opOf(s);
    bool judged = true;       // every reply of this call is complete and none is lost
    for (auto &f : H.faults) if (f.op == s.op && f.kind != "reject" && f.kind != "format" && f.kind != "need-auth") judged = false;
    for (int k : o->faultsHit) if (k == F_send_fail || k == F_recv_fail || k == F_poll_fail || k == F_drop_session || k == F_alloc_fail || k == F_fcntl_fail || k == F_getsockopt_fail) judged = false;
    // the session this call ended in
    int conn = 0; for (auto &e : H.ev) if (e.opEnd == s.op && (e.dir == 'C' || e.dir == 'S')) conn = e.conn;
    if (!conn) continue;
    int firstOp = 0; for (auto *c : W->conns) if (c->id == conn) { firstOp = c->opCreated; if (c->client != s.client) conn = 0; }
    if (!conn) continue;
    std::vector<LogEntry> log = parseLog(o->log);
    // fake replies
    std::multiset<std::string> known; for (auto &e : H.ev) if (e.conn == conn && e.dir == 'S') for (auto &l : linesOf(e.text)) known.insert(l);
    std::string allS; for (auto &e : H.ev) if (e.conn == conn && e.dir == 'S') allS += e.text;
    for (auto &le : log) if (le.side == 's') for (auto &l : linesOf(le.text)) if (replyLine(l)) {
      auto it = known.find(l);
      if (it != known.end()) { known.erase(it); continue; }
      if (judged) violation("C15", "unreceived-reply", who(s) + "the log shows a reply that was not received (or not as received): \"" + esc(l, 80) + "\"");
      else if (allS.find(l.substr(0, l.size())) == std::string::npos) violation("C15", "unreceived-reply", who(s) + "the log shows a reply that was not received: \"" + esc(l, 80) + "\"; " + faultsOf(s.op));
    }
    if (!judged) continue;
    bool earlierOdd = false; for (auto &f : H.faults) if (f.op >= firstOp && f.op < s.op && f.conn == conn && f.kind != "format") earlierOdd = true;
    if (earlierOdd) continue;
    size_t cur = 0, off = 0;      // entry, position in entry
    for (auto &e : H.ev) {
      if (e.conn != conn || e.opEnd > s.op) continue;
      if (e.dir == 'S') {
        if (e.step == S_QUIT || e.step == S_OTHER || !e.complete) continue;
        if (e.opEnd == s.op && e.t + 1 * MS > o->t1) continue;      // still on its way when the call ended
        for (auto &l : linesOf(e.text)) {
          bool found = false;
          while (cur < log.size()) {
            if (log[cur].side == 's') {
              auto ls = linesOf(log[cur].text);
              for (size_t k = off; k < ls.size(); k++) if (ls[k] == l) { found = true; off = k + 1; break; }
              if (found) break;
            }
            cur++; off = 0;
          }
          if (!found) violation("C15", "missing-reply", who(s) + fmt("the log does not contain, in order and complete, the reply line \"%s\" to %s", esc(l, 80).c_str(), stepNames[e.step]));
        }
      } else if (e.dir == 'C') {
        if (e.step == S_AUTHUSER || e.step == S_AUTHPASS) continue;
        if (e.step == S_QUIT && e.opEnd != s.op) continue;
        std::string want = upper(e.text), head = e.step == S_AUTH ? "AUTH" : want;
        bool found = false;
        size_t c2 = cur; if (off) c2++;
        for (; c2 < log.size(); c2++) {
          if (log[c2].side != 'c') continue;
          std::string t = upper(log[c2].text);
          if (e.step == S_AUTH ? t.find("AUTH") != std::string::npos : squash(t.substr(0, t.rfind("\\R\\N") == std::string::npos ? std::string::npos : t.rfind("\\R\\N"))) == squash(head)) { found = true; break; }
        }
        if (!found) violation("C15", "missing-command", who(s) + fmt("the log does not contain, in order, the command \"%s\"", esc(e.step == S_AUTH ? "AUTH ..." : e.text, 80).c_str()));
        cur = c2 + 1; off = 0;
      }
    }
    // of the message: the header lines and the text, in order
    auto del = deliveredBy(s.op);
    if (s.op && o->rc == 0 && del.size() == 1 && !o->threw) {
      auto logged = [](const std::string &t) { std::string r; for (size_t k = 0; k < t.size(); k++) if (t.compare(k, 2, "\r\n") == 0) { r += "\\r\\n"; k++; } else r += t[k]; return r; };
      const std::string &c = del[0]->content; size_t at = 0, p = 0;
      for (size_t e; (e = c.find("\r\n", p)) != std::string::npos && e > p; p = e + 2) {
        size_t f = o->log.find(logged(c.substr(p, e - p)), at);
        if (f == std::string::npos) violation("C15", "missing-header", who(s) + "the log does not contain, in order, the header line \"" + esc(c.substr(p, e - p), 80) + "\"");
        at = f;
      }
      const MsgSpec &m = msgs[(size_t)s.msg];
      if (!m.nullBody && o->log.find(logged(m.body), at) == std::string::npos) violation("C15", "missing-body", who(s) + "the log does not contain the text of the message");
    }
  }
}
void shapeSummary() {
  for (auto &s : sends) shapeAdd(fmt("rc%d", opOf(s)->rc));
}
