// Deterministic simulator core: choice stream, simulated clock, event queue,
// actors (threads passing a baton), network, trace, counters.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <pthread.h>
#include <semaphore.h>
#include <functional>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <vector>

typedef int64_t ns_t;
constexpr ns_t US = 1000, MS = 1000000, SEC = 1000000000;
constexpr ns_t NEVER = INT64_MAX / 4;
constexpr int64_t EPOCH0 = 1893456000;  // 2030-01-01, start of simulated wall clock

// ---- fault kinds (counted when they actually fire) -------------------------
#define FAULT_KINDS(X) \
  X(seg_split) X(seg_bytewise) X(reply_delay) X(reply_multiline) X(reply_longline) X(reply_bigtotal) \
  X(c2s_delay) X(short_send) X(eintr_send) X(eintr_recv) X(eintr_poll) X(eintr_connect) X(eintr_close) X(short_recv) \
  X(spurious_eagain) X(sndbuf_small) X(slow_drain) X(peer_stall_read) X(reject) X(silent) X(partial_silent) X(trickle) \
  X(close_before) X(close_mid) X(close_after) X(rst_before) X(rst_mid) X(rst_after) X(garbage) X(oversize) X(unsolicited) \
  X(connect_refused) X(connect_unreach) X(connect_blackhole) X(connect_slow) X(connect_immediate) X(dns_fail) X(dns_slow) \
  X(socket_fail) X(fcntl_fail) X(getsockopt_fail) X(poll_fail) X(send_fail) X(recv_fail) \
  X(fd_zero) X(fd_large) X(stale_errors) X(clock_jump) X(tls_garbage) X(tls_close) X(tls_stall) X(tls_rst) X(tls_bad_cert) X(tls12) X(tls_frag) \
  X(tls_nonotify) X(inject_plain) X(starttls_missing) X(auth_missing) X(ctx_fail) X(bio_fail) X(handshake_slow) X(tls_record_pieces) X(tls_record_cut) \
  X(disk_open_fail) X(disk_read_eio) X(disk_read_short) X(disk_read_eintr) X(disk_shrink) X(disk_seek_fail) X(disk_missing) X(disk_dir) \
  X(alloc_fail) X(preempt) X(wait_at_static) X(switch_actor) X(server_restart) X(drop_session)
enum Fault {
#define X(n) F_##n,
  FAULT_KINDS(X)
#undef X
  F_COUNT
};
extern const char *faultNames[];

// ---- shared-memory slot through which a run reports ------------------------
constexpr size_t MAX_CHOICES = 1 << 19;
struct Slot {
  volatile uint32_t status;      // 0 running, 1 ok, 2 violation, 3 harness error
  char prop[8];
  char kind[96];
  char msg[4096];
  uint64_t hash;                 // hash of the full execution
  uint64_t shape;                // hash of the abstract session shape
  int64_t simNs;
  uint32_t faults[F_COUNT];
  uint32_t ops, sends, delivered, conns, steps, switches, kf;
  uint32_t nontrivial;
  char kfText[512];
  uint32_t nChoices;
  uint32_t replaying;
  uint32_t choices[MAX_CHOICES];
  char sample[6000];
  uint8_t edges[8192];
};
extern Slot *slot;

// ---- choice stream ----------------------------------------------------------
struct Choices {
  bool replay = false;
  std::vector<uint32_t> in;
  size_t pos = 0;
  uint64_t s = 1;
  uint64_t rnd();
  uint32_t draw(uint32_t n);                       // uniform 0..n-1 ; 0 is "simplest"
  bool chance(unsigned permille);                  // true with p/1000; raw 0 = false
  uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
  uint32_t pick(std::initializer_list<unsigned> w);  // weighted index
  void seed(uint64_t v);
};
extern Choices CH;

// ---- world -------------------------------------------------------------------
struct Actor;
struct Conn;
struct Server;

struct Event { ns_t t; uint64_t seq; std::function<void()> fn; };

struct SegMeta { size_t end; int op; uint64_t consumed; ns_t t; };   // c2s byte-run metadata

struct Conn {
  int id = 0, fd = -1;
  bool open = true;             // descriptor open on the client side
  int actor = 0, client = -1;   // who created it
  int opCreated = 0;
  enum St { Fresh, Connecting, Established, Failed } st = Fresh;
  int soError = 0;
  bool nonblock = false;
  ns_t rcvto = 0, sndto = 0;    // SO_RCVTIMEO / SO_SNDTIMEO, 0 = infinite
  bool cloexec = false;
  Server *srv = nullptr;
  int srvSess = -1;
  // server -> client
  std::string rx;
  uint64_t s2cTotal = 0, consumed = 0;   // bytes ever queued towards / read by the client
  bool rxFin = false, rxRst = false, rstReported = false;
  ns_t lastS2c = 0, c2sDelaySum = 0;   // upstream delays since the last bytes from the server
  bool s2cFinSent = false;
  // client -> server
  std::string rawTx;                    // every byte the client wrote
  std::vector<SegMeta> meta;
  size_t sndCap = 1 << 20;              // socket buffer
  size_t queued = 0;                    // bytes in flight / unread by server
  ns_t lastC2s = 0;
  ns_t c2sLat = 0;
  bool shutWr = false, closedSent = false;
  bool srvClosed = false;               // server side closed
  bool srvStall = false;                // server stopped reading
  std::string stalledData;
  uint64_t connKey = 0;
  int64_t closedAtOp = -1;
  ns_t slowDrain = 0; bool oneDeadline = false;   // several flights of the client share one timeout: the TLS handshake
  int64_t wallSkewAtAccept = 0;
};

struct Op {
  int id = 0; int actor = 0; int client = -1; std::string what;
  int msg = -1;
  ns_t t0 = 0, t1 = 0;
  int rc = 0; bool done = false; bool threw = false; std::string exc;
  std::string log;
  ns_t injected = 0;            // delays injected by the world on behalf of this op
  std::vector<int> faultsHit;   // fault kinds that hit this op
  std::vector<std::string> faultNotes;
  uint64_t sysc = 0;
  char firstHard = 0;           // first hard socket error: 's' sending, 'r' receiving or waiting
};

struct FileFault { int kind = 0; uint64_t at = 0; int err = 0; };

struct Actor {
  int id = 0;
  pthread_t th{};
  sem_t sem;
  bool started = false, done = false, blocked = false;
  std::function<bool()> cond;
  ns_t deadline = NEVER;
  std::function<void()> body;
  int curOp = 0;
  int noPreempt = 0;
  int64_t quantum = -1;                 // edges until the next preemption
  int64_t touches = -1;                 // accesses to written static objects until the next preemption
  int64_t untouched = 0;
  ns_t parked = 0;                      // waits until then for another actor to touch the same object
  uintptr_t parkedAt = 0;
  int parks = 0;
};

struct World {
  std::set<std::string> userNames;   // in use: no name has two passwords
  bool active = false;
  bool multi = false;
  ns_t now = 0;
  int64_t wallSkew = 0;
  uint64_t seq = 0;
  std::vector<Event> heap;
  std::vector<Actor *> actors;
  Actor *cur = nullptr;
  std::vector<Conn *> conns;
  std::map<int, Conn *> fds;
  std::map<int, std::string> files;    // lib-opened file descriptors (scratch files)
  std::vector<Server *> servers;
  std::vector<std::unique_ptr<Op>> ops;
  uint64_t hash = 1469598103934665603ull;
  uint64_t shape = 1469598103934665603ull;
  bool tracing = false;
  std::vector<std::string> trace;
  uint64_t steps = 0;
  int liveAddrinfo = 0;
  // network / syscall fault profile
  struct {
    unsigned eintr = 0, shortSend = 0, shortRecv = 0, spurious = 0;   // permille per call
    unsigned sockFail = 0, fcntlFail = 0, getsockFail = 0, pollFail = 0, sendFail = 0, recvFail = 0;
    unsigned dnsFail = 0, dnsSlow = 0, connRefused = 0, connUnreach = 0, connHole = 0, connImmediate = 0, connSlow = 0;
    unsigned ctxFail = 0, bioFail = 0;
    unsigned clockJump = 0;
    unsigned fdZero = 0, fdLarge = 0, stale = 0;
    unsigned smallSnd = 0, slowDrain = 0, c2sDelay = 0;
    ns_t maxConnDelay = 0;
    bool terminal = true;   // terminal faults (that end a session) still allowed
  } nf;
  int terminalBudget = 1 << 30;          // how many terminal faults may fire in this run
  int terminalFired = 0;
  int64_t lastTerminalOp = -1;
  std::map<std::string, FileFault> fileFaults;
  std::string scratch;
  bool fdZeroUsed = false;
  int nextFd = 200;
  int nextLargeFd = 1100;
  uint64_t maxSteps = 3000000;
  ns_t maxSim = 20000 * SEC;
};
extern World *W;
extern thread_local Actor *me;
extern thread_local int inLib;         // >0 while library code runs on this thread
extern thread_local int libClient;

int curOp();
Op *op(int id);
Op *curOpPtr();
void fired(Fault f, const std::string &note = "");
bool takeTerminal(Fault f, const std::string &note = "");   // consume one terminal fault if the budget allows
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void shapeAdd(const std::string &s);
void at(ns_t t, std::function<void()> fn);
void runDue();
void tick(ns_t d = 2 * US);
// Block the current actor until cond() or deadline. Returns cond().
bool blockUntil(std::function<bool()> cond, ns_t deadline = NEVER);
void yieldPoint();
[[noreturn]] void violation(const char *prop, const std::string &kind, const std::string &msg);
[[noreturn]] void finishOk();
extern const char *asProp;             // report oracle violations under this property
[[noreturn]] void harnessError(const std::string &msg);
void noteKnown(const std::string &s);
uint64_t fnv(uint64_t h, const void *p, size_t n);
std::string esc(const std::string &s, size_t max = 160);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// Multi-actor run: each body runs on its own thread under the seeded scheduler.
void runActors(std::vector<std::function<void()>> bodies);

// network entry points used by the server model
void netSend(Conn *c, const std::string &data, const std::vector<std::pair<size_t, ns_t>> &plan);  // (bytes, delay before)
void netFin(Conn *c, ns_t delay);
void netRst(Conn *c, ns_t delay);
void netResume(Conn *c);

struct Seam {             // entering simulator code from library code
  int saved; int savedErr;
  Seam();
  ~Seam();
};
struct InLib {            // entering library code from the workload
  int saved;
  InLib() { saved = inLib; inLib = 1; }
  ~InLib() { inLib = saved; }
};

// memory ledger / allocation faults (mem.cpp)
void memReset();
size_t memOutstanding(std::string *detail);
size_t memLibAllocs();                   // number of C++ allocations by library code so far (this op)
void memFailAt(int64_t k, size_t minSize = 0);  // fail the k-th library allocation of at least minSize bytes from now (-1 off)
bool memFailFired();
struct SslLedger { int ctx, ssl, bio, x509; };
SslLedger sslLive();                     // client-side OpenSSL objects alive
void sslLedgerInit();

// static objects written by library code while several clients are at work (guard.cpp)
bool touchedStatics();
void forgetStatics();
extern bool recordShared;            // what library code allocates now will be used by several threads
void sharedBlock(void *p, size_t n);
void forgetShared();
struct ShareScope { ShareScope() { recordShared = true; } ~ShareScope() { recordShared = false; } };
extern uint64_t libWork, libWorkLimit, sendBudget;   // steps of library code, and when they are too many
