// Strict SMTP server model (plain, STARTTLS, implicit TLS) with fault injection.
#pragma once
#include <openssl/ssl.h>
#include "core.h"

enum Step { S_GREET, S_EHLO, S_STARTTLS, S_TLS, S_EHLO2, S_AUTH, S_AUTHUSER, S_AUTHPASS, S_MAIL, S_RCPT, S_DATA, S_CONTENT, S_END, S_QUIT, S_OTHER, S_COUNT };
extern const char *stepNames[];
enum Mech { M_PLAIN = 1, M_LOGIN = 2, M_XOAUTH2 = 4 };
enum CertKind { C_VALID, C_SELFSIGNED, C_EXPIRED, C_UNTRUSTED, C_WRONGHOST, C_NOTYET, C_SELF_EXPIRED, C_SELF_WRONGHOST, C_ROOT_IN_CHAIN, C_IPSAN, C_LOOKALIKE, C_CN_ONLY_MATCH, C_NONCA, C_INTERMEDIATE, C_NO_INTERMEDIATE, C_EXPIRED_INTERMEDIATE, C_MIXED_CASE, C_CN_ONLY, C_CLIENT_ONLY, C_BAD_SIGNATURE, C_COUNT };
// certificates that a client which trusts the simulated authority and knows the server by its name must accept
inline bool certTrusted(int k) { return k == C_VALID || k == C_INTERMEDIATE || k == C_MIXED_CASE; }
extern const char *certNames[];

struct ForeignUse { int op; std::string call; int fd; std::string what; };
extern std::vector<ForeignUse> foreignUses;

struct FaultRec { int op; int step; std::string kind; int code; int conn; std::string cmd; };
struct SoftViol { const char *prop; std::string kind, msg; int op; };
struct Rcpt { std::string addr; bool accepted; int op; };
struct Delivered {
  int server, conn, sess, opMail, opEnd; std::string from; std::vector<std::string> rcpts; std::string content;
  bool tls; std::string authUser; ns_t t; int refusedRcpts; std::string clientKey;
};
// one line of the recorded dialogue
struct Ev { ns_t t; int server, conn, sess; char dir; bool tls; int opStart, opEnd; int step; int code; std::string text; bool complete; bool unsolicited; int n; };
struct AuthTry { int conn, op; std::string mech, user, pass; bool tls, offered, accepted; int code; };

struct SrvCfg {
  bool implicitTls = false, offerTls = false, authOverPlain = true;
  int cert = C_VALID;
  int authMask = 0;              // offered mechanisms
  bool authExtra = false;        // also offers mechanisms the client does not know
  int authSplit = 0;             // 0 one AUTH line, 1 two lines, 2 also AUTH=, 3 a keyword that begins with AUTH as well
  bool authName = false;         // introduces itself with a name that begins like a keyword
  unsigned fwd = 0;              // permille of recipients accepted with 251
  bool requireAuth = false;
  int mailFormats = 7;           // which MAIL FROM spellings are accepted
  int capStyle = 0;              // 0 fixed order, 1 shuffled by choice
  bool lowerCaps = false;        // keywords in lower / mixed case
  bool hole = false;             // connections to it are never answered
  int hugeAt = -1; std::vector<std::string> hugeLines;   // extra lines of every reply at one step
  int maxTls = 0;                // 0 any, 1 TLS1.2 only
  // reply style, permille
  unsigned split = 0, bytewise = 0, delay = 0, multiline = 0, longline = 0, bigtotal = 0, tlsFrag = 0, codeOnly = 0;
  ns_t maxDelay = 0;
  // faults, permille per reply (each consumes the terminal budget)
  unsigned reject = 0, silent = 0, partial = 0, trickle = 0, closeBefore = 0, closeMid = 0, closeAfter = 0, rstBefore = 0, rstMid = 0, rstAfter = 0,
           garbage = 0, oversize = 0, unsolicited = 0, stallRead = 0, tlsFault = 0, injectPlain = 0;
  uint32_t stepMask = 0xffffffff;
  unsigned faultSum() const { return reject + silent + partial + trickle + closeBefore + closeMid + closeAfter + rstBefore + rstMid + rstAfter + garbage + oversize + unsolicited + stallRead; }
};

struct Decision { int kind = -1; int code = 0; };   // kind = Fault or -1

struct Session {
  Server *srv; Conn *c; int idx;
  SrvCfg cfg;                       // capabilities of this session (fixed at accept)
  bool ehlo = false, tls = false, authed = false, closed = false, quit = false, everTls = false, starttlsPending = false;
  bool offeredTlsSeen = false;      // the client was shown a STARTTLS offer on this session
  bool tlsHandshake = false;
  std::string authUser;
  enum Phase { Cmd, Data, AuthUser, AuthPass, AuthPlainCont, AuthXoauthCont } phase = Cmd;
  std::string inbuf; SegMeta lineMeta{0, 0, 0, 0}; bool lineMetaSet = false;
  size_t got = 0;                   // raw c2s bytes processed
  std::string dataBuf; int opData = 0; bool contentStarted = false;
  bool tx = false; std::string from; std::vector<Rcpt> rcpts; int opMail = 0;
  uint64_t lastReplyEnd = 0; bool lastReplyOdd = false;
  SSL *ssl = nullptr;
  std::string loginUser, lastMech; int authCount = 0;
  int quitOp = 0; bool clientClosed = false; bool rstClosed = false;
  int mailCount = 0; bool silentMode = false;
  bool tlsFaulted = false; bool clientTlsGarbage = false, firstBytesTls = false;
  int appLinesTls = 0;
  std::string plainIn;              // everything received in clear
  std::string tlsIn;                // everything received decrypted
  int lastOp = 0;
  ~Session() { if (ssl) SSL_free(ssl); }
};

struct Server {
  int id; std::string host; uint32_t ip; int port;
  SrvCfg cfg;
  bool down = false;
  std::map<std::string, std::string> users;
  std::vector<std::unique_ptr<Session>> sessions;
  std::function<void(Server *, Session *)> onSession;   // lets a workload adjust a session's configuration
  void onAccept(Conn *c);
  void onBytes(Conn *c, const std::string &d);
  void onClose(Conn *c, bool rst);
};

struct History {
  std::vector<Delivered> delivered;
  std::vector<Ev> ev;
  std::vector<AuthTry> auths;
  std::vector<FaultRec> faults;
  std::vector<SoftViol> viols;
};
extern History H;

Server *addServer(const std::string &host, uint32_t ip, int port);
void dropSession(Session *s, bool rst, bool notice421);
void certInit(const std::string &caPath);
std::string b64(const std::string &s);
bool unb64(const std::string &s, std::string *out);
std::string upper(std::string s);
