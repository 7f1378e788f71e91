// Workload side: message specifications, client boxes over the six client
// classes, the recorded history and the oracles over it.
#pragma once
#include "core.h"
#include "server.h"
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "htmlmessage.h"
#include "cpp/smtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/htmlmessage.hpp"

struct AddrSpec { std::string addr, name; };
struct PoolFile { std::string path, base, mime, data; bool missing = false, dir = false; };
extern std::vector<PoolFile> filePool;     // ordinary files; the last ones are missing / a directory
extern size_t poolGood;
void poolInit(const std::string &scratch);
struct AttSpec { int file; std::string name, cid; };
struct MsgSpec {
  int id = 0; bool html = false, multi = false, nullSubject = false, nullBody = false, crlf = false;
  AddrSpec from; std::vector<AddrSpec> to, cc, bcc; std::string subject, body; std::vector<AttSpec> atts;
  std::string brief() const;
};
enum { RICH_MIN = 0, RICH_NORMAL = 1, RICH_WILD = 2 };
MsgSpec genMsg(int id, int rich, bool atts = true);
std::unique_ptr<jed_utils::Message> buildC(const MsgSpec &m);
std::unique_ptr<jed_utils::Message> buildCpp(const MsgSpec &m);   // built as a C++ message, then converted

enum CKind { K_PLAIN, K_OPP, K_FORCED };
struct Creds { bool set = false; std::string user, pass; int pref = 0; };
struct Settings {
  CKind kind = K_PLAIN; bool cpp = false; int srv = 0; bool byIp = false; unsigned timeout = 5; bool timeoutSet = false; bool batch = false; Creds cr; bool selfOk = false;
};

struct LibScope {         // library code runs here on behalf of client id
  int a, b;
  explicit LibScope(int client) : a(inLib), b(libClient) { inLib = 1; libClient = client; }
  ~LibScope() { inLib = a; libClient = b; }
};
struct ClientBox {
  int id = 0; Settings st;
  virtual ~ClientBox() {}
  virtual void create() = 0;                    // construct with server and port
  virtual void destroy() = 0;
  virtual bool alive() const = 0;
  virtual void setServer(const std::string &h, unsigned port) = 0;
  virtual void setTimeout(unsigned t) = 0;
  virtual void setBatch(bool b) = 0;
  virtual void setCreds(const Creds &c) = 0;
  virtual void setSelf(bool v) = 0;
  virtual int send(const jed_utils::Message &m) = 0;
  virtual std::string log() = 0;
  virtual std::string describe() = 0;           // settings as the object reports them
  virtual ClientBox *blank() = 0;               // same class, no object
  virtual void copyFrom(ClientBox &o) = 0;
  virtual void moveFrom(ClientBox &o) = 0;
  virtual void assign(ClientBox &o) = 0;
  virtual void moveAssign(ClientBox &o) = 0;
};
ClientBox *newBox(CKind k, bool cpp);
const char *kindName(const Settings &s);

// ---- running operations -------------------------------------------------------
void newWorld(bool tracing);
struct SendRec { int op, client, msg; Settings st; bool healthy = false; bool liveBefore = false; bool mustSucceed = false; bool undisturbed = false; };
extern std::vector<MsgSpec> msgs;             // every message of the run by id
extern std::vector<SendRec> sends;            // every send call, in call order
extern int nextClientId;
extern std::map<int, std::vector<Creds>> credsOf;   // client -> every credential it ever had
extern std::map<int, CKind> kindOf;
extern std::string scratchDir;
Op *beginOp(const std::string &what, int client, int msg = -1);
void endOp(Op *o);
int doSendObj(ClientBox *c, int msg, const jed_utils::Message &m);
int doSend(ClientBox *c, int msg, bool cppMsg);
void applySettings(ClientBox *c);             // create + all setters, per c->st
void destroyBox(ClientBox *c);
void settle();                                // let every event in flight happen
void sleepSim(ns_t d);
std::string hostOf(const Settings &s);
int totalOpenConns(int client);

// ---- oracles --------------------------------------------------------------------
struct Mail { std::vector<std::pair<std::string, std::string>> hdr; struct Part { std::vector<std::pair<std::string, std::string>> hdr; std::string body; }; std::vector<Part> parts; std::string boundary, err; };
Mail parseMail(const std::string &content);
std::string compareMail(const MsgSpec &m, const std::string &content);      // "" or the difference
std::string compareEnvelope(const MsgSpec &m, const Delivered &d);
std::vector<Delivered *> deliveredBy(int op);
bool faultFree(int op);                       // no terminal fault or refusal hit this call
void oC01(); void oC02(); void oC03(); void oC04(); void oC05(); void oC06(); void oC07(); void oC08(); void oC09(); void oC10(); void oC11(); void oC12(bool afterDestroy); void oC13(); void oC14(); void oC15();
void oC17();
void oC12op(const SendRec &s, ClientBox *c);
void checkThrown(const char *prop);
std::string transcript(int conn);
void shapeSummary();
