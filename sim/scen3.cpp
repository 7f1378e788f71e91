// C24: the library's own work stays proportional to what it is given.
#include "scen.h"
#include "attachment.h"
#include "credential.h"
#include "messageaddress.h"
#include "cpp/attachment.hpp"
#include "cpp/credential.hpp"
#include "cpp/messageaddress.hpp"
#include "smtpclient.h"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include <algorithm>

Server *healthyServer(int i, CKind k, Settings &st, bool style);
Settings genSettings(CKind k, bool cpp);
void regClient(ClientBox *b);
void transient(unsigned runs);

static size_t genSize(size_t most) {
  size_t top = most; uint32_t h = CH.draw(5); for (uint32_t i = 0; i < h; i++) top /= 6;
  return 1 + CH.draw((uint32_t)top);
}
// A long text made of a few repeated pieces, the shape that makes bad algorithms slow.
static std::string longText(size_t most, const std::vector<std::string> &pieces, const std::vector<std::string> &ends) {
  size_t n = genSize(most);
  std::string s, tail = CH.draw(2) ? "_" : ""; uint32_t mode = CH.draw(4); uint32_t i = 0;
  std::string a = pieces[CH.draw((uint32_t)pieces.size())], b = pieces[CH.draw((uint32_t)pieces.size())];
  while (s.size() < n) { s += mode == 0 ? a : mode == 1 ? (i % 2 ? a : b) : mode == 2 ? a + std::to_string(i) + tail : (i * 2654435761u >> 28 ? a : b); i++; }
  s.resize(n);
  if (CH.draw(2)) s += ends[CH.draw((uint32_t)ends.size())];
  if (CH.draw(4) == 3) s = ends[CH.draw((uint32_t)ends.size())] + s;
  return s;
}
static const std::vector<std::string> addrPieces = {"a", "a.", ".", "@", "a@", "-", "_", "A1", "a.b-c", " ", "\xc3\xa9", "a@b.", "com", "+x", "\"", "a@a.co", ".co"};
static const std::vector<std::string> addrEnds = {"@example.com", "!", "@", "", ".", "@example.c", "@example.toolongend", " ", "@a.b.c.d.com", "\n", "example.com", "@@example.com", "a@example.com"};
static const std::vector<std::string> textPieces = {"x", "\r\n", "\r\n.", ".", "\n", "\r", "a line of text\r\n", "\r\n--sep", "--sep", "\"", "\\", ",", "word ", "\xc3\xa9", "<b>", "\r\n--sep1_\r\n", "\r\n\r\n"};
static const std::vector<std::string> textEnds = {"\r\n", ".", "\r\n.", "", "--sep", "\"", "\\", " "};

// A healthy call takes a fixed part below a million steps and at most 40 more for each byte it is given.
static uint64_t budget(size_t n) { return 8000000 + 250 * (uint64_t)n; }
static void measured(const std::string &what, size_t n, std::function<void()> f, bool mayThrow = true) {
  Op *o = beginOp(what + fmt(" of %zu bytes", n), 0);
  libWorkLimit = budget(n);
  try { LibScope l(0); f(); }
  catch (const std::invalid_argument &) { if (!mayThrow) violation("C24", "exception", what + " threw std::invalid_argument"); tr("refused"); }
  catch (const std::bad_alloc &) { violation("C24", "exception", what + " threw std::bad_alloc"); }
  catch (const std::exception &e) { violation("C24", "exception", what + " threw " + e.what()); }
  catch (...) { violation("C24", "exception", what + " threw an unknown exception"); }
  endOp(o);
}
static void texts() {
  using namespace jed_utils; namespace P = jed_utils::cpp;
  int n = 1 + (int)CH.draw(4);
  for (int q = 0; q < n; q++) switch (CH.draw(8)) {
    case 0: case 1: case 2: {
      std::string a = longText(120000, addrPieces, addrEnds), nm = CH.draw(3) ? "" : longText(60000, textPieces, textEnds); bool c = CH.draw(2);
      measured("a MessageAddress", a.size() + nm.size(), [&]() {
        if (c) { P::MessageAddress x(a, nm); std::string t(x); P::MessageAddress y(x); y = x; }
        else { MessageAddress x(a.c_str(), nm.c_str()); std::string t(x); MessageAddress y(x); y = x; if (!(y == x)) violation("C24", "value", "a copy of an address differs from it"); } });
      break;
    }
    case 3: {
      std::string u = longText(100000, textPieces, textEnds), p = longText(100000, textPieces, textEnds); bool c = CH.draw(2);
      measured("a Credential", u.size() + p.size(), [&]() { if (c) { P::Credential x(u, p); P::Credential y(x); y = x; y.setPassword(u); } else { Credential x(u.c_str(), p.c_str()); Credential y(x); y = x; y.setUsername(p.c_str()); } });
      break;
    }
    case 4: case 5: {
      std::string f = CH.draw(2) ? filePool[CH.draw((uint32_t)poolGood)].path : "/nonexistent-" + longText(20000, {"a", ".", "/", "..", ".txt", "\\", " ", "a."}, {".txt", ".", ".unknownextension", "", ".tar.gz", ".PDF"});
      std::string nm = longText(60000, textPieces, textEnds), id = longText(60000, textPieces, textEnds); bool c = CH.draw(2);
      size_t fs = 0; for (auto &x : filePool) if (x.path == f) fs = x.data.size();
      measured("an Attachment", f.size() + nm.size() + id.size() + 2 * fs, [&]() {
        if (c) { P::Attachment x(f, nm, id); P::Attachment y(x); y.setContentId(nm); x.getMimeType(); x.getBase64EncodedFile(); }
        else { Attachment x(f.c_str(), nm.c_str(), id.c_str()); Attachment y(x); y.setContentId(nm.c_str()); x.getMimeType(); std::unique_ptr<const char[]> b(x.getBase64EncodedFile()); } });
      break;
    }
    default: {
      std::string h = longText(60000, {"a", ".", " ", "\t", "\n", "-", "a.b", "\xc3\xa9"}, {".sim", " ", "", "\r\n"});
      CKind k = (CKind)CH.draw(3); Settings st = genSettings(k, CH.draw(2)); healthyServer(0, k, st, false);
      ClientBox *b = newBox(k, st.cpp); int id = b->id; b->st = st; b->id = id; b->st.srv = 0; regClient(b);
      measured("a client for a server name", h.size(), [&]() { if (st.cpp) { P::OpportunisticSecureSMTPClient x(h, 25); P::OpportunisticSecureSMTPClient y(x); } else { SmtpClient x(h.c_str(), 25); SmtpClient y(x); } });
      b->create();
      measured("a server name", h.size(), [&]() { b->setServer(h, 25); });
      destroyBox(b);
      break;
    }
  }
  slot->sends += 2;
}
static const std::vector<std::string> replyPieces = {" ", " ", "PLAIN ", "A ", "x", "=", "LOGIN ", "-", "250 ", "250-AUTH ", "AUTH ", "\t", "XOAUTH2 X", "\r", "STARTTLS "};
static void bigMail() {
  CKind k = (CKind)CH.draw(3); bool cpp = CH.draw(3) == 2;
  Settings st = genSettings(k, cpp); st.timeout = 30; st.timeoutSet = true;
  Server *v = healthyServer(0, k, st, true);
  size_t huge = 0;
  if (CH.draw(3) == 2) {
    SrvCfg &g = v->cfg; g.authMask = 7; g.hugeAt = (int)CH.draw(S_OTHER); if (CH.draw(2)) g.hugeAt = CH.draw(2) ? S_EHLO : S_EHLO2;
    static const char *heads[] = {"AUTH ", "AUTH=", "AUTH", "X-LONG ", "", "SIZE ", "STARTTLS", "AUTH "};
    uint32_t many = CH.draw(3);
    if (many == 0) g.hugeLines.push_back(heads[CH.draw(8)] + longText(600000, replyPieces, {"", " ", "="}));
    else { uint32_t n = 1 + CH.draw(many == 1 ? 300 : 12000); std::string h = heads[CH.draw(8)], p = longText(many == 1 ? 400 : 12, replyPieces, {""}); for (uint32_t i = 0; i < n; i++) g.hugeLines.push_back(h + p); }
    if (!g.offerTls) for (auto &l : g.hugeLines) if (l.compare(0, 8, "STARTTLS") == 0) l[0] = 'X';
    for (auto &l : g.hugeLines) { huge += l.size() + 6; }
    if (g.hugeAt == S_RCPT && huge > 4000) g.hugeAt = S_DATA;
  }
  transient(300);
  ClientBox *b = newBox(k, cpp); int id = b->id; b->st = st; b->id = id; regClient(b); applySettings(b);
  int nm = 1 + (int)CH.draw(2);
  for (int i = 0; i < nm; i++) {
    MsgSpec m = genMsg((int)msgs.size() + 1, RICH_NORMAL); m.id = (int)msgs.size();
    switch (CH.pick({5, 2, 2})) {
      case 0: m.body = longText(CH.draw(6) == 5 ? 500000 : 120000, textPieces, textEnds); m.nullBody = false; break;
      case 1: m.subject = longText(30000, textPieces, textEnds); m.nullSubject = false; m.from.name = longText(30000, textPieces, textEnds); m.to[0].name = longText(30000, textPieces, textEnds); break;
      default: { m.multi = true; uint32_t n = 1 + CH.draw(150); for (uint32_t q = 0; q < n; q++) (CH.draw(2) ? m.to : CH.draw(2) ? m.cc : m.bcc).push_back({fmt("rcpt%d@example.com", q), q % 3 ? "" : "Some Name, " + std::to_string(q)}); break; }
    }
    msgs.push_back(m);
    size_t n = m.body.size() + 2 * (m.subject.size() + m.from.name.size());
    for (auto *l : {&m.to, &m.cc, &m.bcc}) for (auto &a : *l) n += 200 + a.addr.size() + 2 * a.name.size();
    for (auto &a : m.atts) n += 3 * filePool[(size_t)a.file].data.size() + 300;
    std::unique_ptr<jed_utils::Message> x;
    measured("a message", n, [&]() { x = cpp && !m.nullBody && !m.nullSubject ? buildCpp(m) : buildC(m); });
    if (!x) violation("C24", "refused", "a message with valid addresses was refused");
    // every step of the dialogue may look through the log of the session
    size_t steps = 10 + m.to.size() + m.cc.size() + m.bcc.size(), replies = 600 * steps + 2 * huge;
    sendBudget = budget(n + replies) + 4 * (b->log().size() + replies + n) * steps;
    int rc = doSendObj(b, m.id, *x);
    sendBudget = 0;
    { LibScope l(b->id); x.reset(); }
    if (rc != 0 || deliveredBy(sends.back().op).size() != 1) violation("C24", "refused", fmt("a large message was not delivered to a willing server, the call returned %d", rc));
  }
  destroyBox(b);
}
void run24() {
  asProp = "C24";
  if (CH.draw(3) == 2) bigMail(); else texts();
  settle();
  checkThrown("C24");
  oC12(true);
  asProp = nullptr;
}
