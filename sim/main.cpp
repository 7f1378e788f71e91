// Runner: warms the process up once, then forks one child per simulated run.
// Aggregates counters, gates and minimises violations, writes replay files and evidence.
#include "scen.h"
#include <dirent.h>
#include <fcntl.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <unordered_set>

std::string scratchDir;
// ---- deterministic randomness for OpenSSL ------------------------------------------
static uint64_t randState = 1;
void resetRand() { randState = 0x5eed; }
static int detBytes(unsigned char *b, int n) {
  for (int i = 0; i < n; i++) {
    uint64_t z = (randState += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    b[i] = (unsigned char)((z ^ (z >> 31)) >> 16);
  }
  return 1;
}
static int detSeed(const void *, int) { return 1; }
static int detAdd(const void *, int, double) { return 1; }
static int detStatus() { return 1; }
static RAND_METHOD detRand = {detSeed, detBytes, nullptr, detAdd, detBytes, detStatus};

// ---- shared aggregate -----------------------------------------------------------------
constexpr uint64_t MAXRUNS = 1 << 22;
struct Agg {
  volatile uint64_t next;
  volatile int64_t firstViol;
  volatile uint32_t harness;
  char harnessMsg[2048];
  uint64_t runs, nontrivial, ops, sends, delivered, conns, steps, switches, kf, detChecked, detBad;
  uint64_t simNs;
  uint64_t faults[F_COUNT], faultRuns[F_COUNT];
  char kfText[512]; char firstWhat[600];
  uint64_t perProgram[8];
  uint8_t edges[8192];
  char sample[4][3000];
};
static Agg *agg;
static uint64_t *runHash, *runShape;      // per run index; 0 = not executed
static uint8_t *runNontrivial;
static Slot *slots[64];
static int errFd = -1;

static double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
struct Spec { int prop; uint64_t seed; const std::vector<uint32_t> *replay = nullptr; bool tracing = false; };
struct Result { uint32_t status; std::string prop, kind, msg; uint64_t hash; };

static void clearSlot(Slot *s) {
  s->status = 0; s->prop[0] = s->kind[0] = s->msg[0] = s->kfText[0] = s->sample[0] = 0; s->hash = s->shape = 0; s->simNs = 0;
  memset(s->faults, 0, sizeof s->faults); s->ops = s->sends = s->delivered = s->conns = s->steps = s->switches = s->kf = s->nontrivial = s->nChoices = s->replaying = 0;
}
[[noreturn]] static void childMain(const Spec &sp, Slot *sl) {
  slot = sl;
  signal(SIGPIPE, SIG_DFL);
  rlimit rl{20, 25}; setrlimit(RLIMIT_CPU, &rl);
  rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  alarm(100);
  if (errFd >= 0 && !sp.tracing) { dup2(errFd, 2); }
  CH = Choices();
  CH.seed(sp.seed);
  if (sp.replay) { CH.replay = true; CH.in = *sp.replay; }
  resetRand();
  ERR_clear_error();
  newWorld(sp.tracing);
  runScenario(sp.prop);
  finishOk();
}
static std::string readErr() {
  std::string s; if (errFd < 0) return s;
  char b[16384]; ssize_t n = pread(errFd, b, sizeof b, 0); if (n > 0) s.assign(b, (size_t)n);
  return s;
}
static Result runOnce(const Spec &sp, Slot *sl) {
  clearSlot(sl);
  if (errFd >= 0) { if (ftruncate(errFd, 0)) {} lseek(errFd, 0, SEEK_SET); }
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) childMain(sp, sl);
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Result r; char prop[8]; snprintf(prop, sizeof prop, "C%02d", sp.prop);
  r.status = sl->status; r.prop = sl->prop; r.kind = sl->kind; r.msg = sl->msg; r.hash = sl->hash;
  if (sl->status != 0) { if (r.prop == "*") r.prop = prop; return r; }
  // the child ended on its own
  std::string e = readErr();
  r.status = 2; r.prop = prop;
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGXCPU || s == SIGALRM) { r.kind = s == SIGALRM ? "hang:blocked" : "hang:cpu"; r.msg = "the call never returned"; }
    else if (s == SIGKILL) { r.status = 3; r.kind = "harness"; r.msg = "child was killed"; }
    else { r.kind = fmt("crash:signal:%d", s); r.msg = fmt("the library ended the process by signal %d (%s)", s, strsignal(s)); }
  } else {
    size_t a = e.find("ERROR: AddressSanitizer: "), u = e.find("runtime error: ");
    if (a != std::string::npos) { a += 25; r.kind = "crash:asan:" + e.substr(a, e.find_first_of(" \n", a) - a); }
    else if (u != std::string::npos) { size_t q = e.find('\n', u); r.kind = "crash:ubsan:" + e.substr(u + 15, std::min<size_t>(60, q - u - 15)); }
    else r.kind = fmt("crash:exit:%d", WEXITSTATUS(st));
    r.msg = "memory error or process exit: " + e.substr(0, 1500);
    if (r.kind.size() > 90) r.kind.resize(90);
  }
  return r;
}
static uint64_t mixSeed(uint64_t seed, int prop, uint64_t i) {
  uint64_t z = seed * 0x9E3779B97F4A7C15ull + (uint64_t)prop * 0xD1B54A32D192ED03ull + i * 0xBF58476D1CE4E5B9ull + 77;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}

struct Known { std::string prop, kind, match, text; };
static std::vector<Known> known;
static void loadKnown(const char *path, const std::string &prop) {
  std::ifstream f(path); std::string l;
  while (std::getline(f, l)) {
    if (l.compare(0, 8, "finding:")) continue;          // finding: property=C01 kind=<kind> match="<text>" <description>
    auto get = [&](const char *k) { size_t p = l.find(k); if (p == std::string::npos) return std::string(); p += strlen(k); if (l[p] == '"') { size_t e = l.find('"', p + 1); return l.substr(p + 1, e - p - 1); } return l.substr(p, l.find(' ', p) - p); };
    Known k{get("property="), get("kind="), get("match="), l};
    if (k.prop == prop) known.push_back(k);
  }
}
static const Known *isKnown(const Result &r) {
  for (auto &k : known) if (k.kind == r.kind && (k.match.empty() || r.msg.find(k.match) != std::string::npos)) return &k;
  return nullptr;
}

static void worker(int w, int prop, uint64_t seed, uint64_t runs, double deadline) {
  Slot *sl = slots[w];
  errFd = (int)syscall(SYS_memfd_create, "err", 0);
  for (;;) {
    uint64_t i = __sync_fetch_and_add(&agg->next, 1);
    if (i >= runs || wall() > deadline || agg->harness) return;
    if (agg->firstViol >= 0 && (int64_t)i > agg->firstViol) return;
    Spec sp{prop, mixSeed(seed, prop, i)};
    Result r = runOnce(sp, sl);
    if (r.status == 3) { if (!__sync_fetch_and_add(&agg->harness, 1)) snprintf(agg->harnessMsg, sizeof agg->harnessMsg, "run %llu: %s", (unsigned long long)i, r.msg.c_str()); return; }
    if (r.status == 2) {
      if (const Known *k = isKnown(r)) { __sync_fetch_and_add(&agg->kf, 1); snprintf(agg->kfText, sizeof agg->kfText, "%s", k->text.c_str()); }
      else { for (;;) { int64_t c = agg->firstViol; if (c >= 0 && c <= (int64_t)i) break; if (__sync_bool_compare_and_swap(&agg->firstViol, c, (int64_t)i)) { snprintf(agg->firstWhat, sizeof agg->firstWhat, "%s: %s", r.kind.c_str(), r.msg.c_str()); break; } } return; }
    }
    runHash[i] = sl->hash | 1; runShape[i] = sl->shape | 1; runNontrivial[i] = (uint8_t)(sl->nontrivial != 0);
    auto add = [](uint64_t *p, uint64_t v) { __sync_fetch_and_add(p, v); };
    add(&agg->runs, 1); add(&agg->nontrivial, sl->nontrivial != 0); add(&agg->ops, sl->ops); add(&agg->sends, sl->sends); add(&agg->delivered, sl->delivered); add(&agg->conns, sl->conns);
    add(&agg->steps, sl->steps); add(&agg->switches, sl->switches); add(&agg->simNs, (uint64_t)sl->simNs);
    for (int k = 0; k < F_COUNT; k++) if (sl->faults[k]) { add(&agg->faults[k], sl->faults[k]); add(&agg->faultRuns[k], 1); }
    if (i < 400 && i % 100 == 7 && sl->sample[0]) snprintf(agg->sample[i / 100], sizeof agg->sample[0], "run %llu: %.2900s", (unsigned long long)i, sl->sample);
    if (i % 64 == 9 && r.status == 1) {
      uint64_t h = sl->hash; uint32_t nc = sl->nChoices;
      Result q = runOnce(sp, sl);
      add(&agg->detChecked, 1);
      if (q.status != r.status || sl->hash != h || sl->nChoices != nc) add(&agg->detBad, 1);
    }
  }
}

// ---- minimisation ----------------------------------------------------------------------
static bool same(const Result &a, const Result &b) { return a.status == 2 && b.status == 2 && a.prop == b.prop && a.kind == b.kind; }
static std::vector<uint32_t> shrink(int prop, const Result &orig, std::vector<uint32_t> c, double budget, int *tries) {
  double end = wall() + budget;
  auto test = [&](std::vector<uint32_t> &x) {
    if (wall() > end) return false;
    (*tries)++;
    Spec sp{prop, 1, &x};
    Result r = runOnce(sp, slots[0]);
    if (!same(r, orig)) return false;
    x.assign(slots[0]->choices, slots[0]->choices + std::min<uint32_t>(slots[0]->nChoices, MAX_CHOICES));
    while (!x.empty() && x.back() == 0) x.pop_back();
    return true;
  };
  auto better = [](const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    uint64_t x = 0, y = 0; for (auto v : a) x += v; for (auto v : b) y += v; return x < y;
  };
  while (!c.empty() && c.back() == 0) c.pop_back();
  bool progress = true;
  while (progress && wall() < end) {
    progress = false;
    for (size_t n = c.size() / 2; n >= 1 && wall() < end; n /= 2) {
      for (size_t i = 0; i + n <= c.size() && wall() < end;) {
        std::vector<uint32_t> x = c; x.erase(x.begin() + (long)i, x.begin() + (long)(i + n));
        if (test(x) && better(x, c)) { c = x; progress = true; continue; }
        bool nz = false; for (size_t k = i; k < i + n && k < c.size(); k++) nz |= c[k] != 0;
        if (nz) { x = c; for (size_t k = i; k < i + n; k++) x[k] = 0; if (test(x) && better(x, c)) { c = x; progress = true; continue; } }
        i += n;
      }
    }
    for (size_t i = 0; i < c.size() && wall() < end; i++) {
      if (c[i] < 2) continue;
      for (uint32_t v : {1u, c[i] / 2, c[i] - 1}) { if (i >= c.size() || v >= c[i]) continue; std::vector<uint32_t> x = c; x[i] = v; if (test(x) && better(x, c)) { c = x; progress = true; break; } }
    }
  }
  return c;
}
static std::string jesc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; }
  return o + "\"";
}
static void rmScratch() {
  if (scratchDir.compare(0, 10, "/tmp/vsim.")) return;
  if (DIR *d = opendir(scratchDir.c_str())) { while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = scratchDir + "/" + n; struct stat st; if (!lstat(p.c_str(), &st)) { if (S_ISDIR(st.st_mode)) rmdir(p.c_str()); else unlink(p.c_str()); } } closedir(d); }
  rmdir(scratchDir.c_str());
}
// run the library once in this process, outside of any simulation, so that lazily
// initialised state (OpenSSL, locale) exists before the runs are forked
static void warmUp() {
  Slot *s = slots[0]; clearSlot(s); slot = s;
  for (int k = 0; k < 3; k++) {
    pid_t p = 0; (void)p;
    CH = Choices(); CH.replay = true; resetRand();
    newWorld(false);
    CH.in.clear();
    for (int cpp = 0; cpp < 2; cpp++) {
      ClientBox *b = newBox((CKind)k, cpp != 0); int id = b->id; b->st = Settings(); b->st.kind = (CKind)k; b->st.cpp = cpp != 0; b->st.srv = cpp; b->id = id; b->st.cr = Creds{true, "user", "password123", 0};
      static const char *hosts[] = {"mail1.sim", "mail2.sim"};
      Server *v = addServer(hosts[cpp], 0x0a000001u + (uint32_t)cpp, 25 + cpp); v->cfg.implicitTls = k == K_FORCED; v->cfg.offerTls = k == K_OPP; v->cfg.authMask = 7; v->users["user"] = "password123";
      MsgSpec m = genMsg(cpp + 1, RICH_MIN); m.id = (int)msgs.size(); m.atts.push_back({0, "a.txt", ""}); msgs.push_back(m);
      applySettings(b); doSend(b, m.id, false); destroyBox(b);
    }
    settle();
    W->active = false; W = nullptr; me = nullptr;
    memReset();
  }
  asProp = nullptr;
}

int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VSIM_REEXEC")) { setenv("VSIM_REEXEC", "1", 1); if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  int prop = 0, jobs = 8; uint64_t seed = 1, runs = 1000; double wallCap = 60, shrinkS = 20; std::string evid, replays = "/tmp", knownFile, replay, tier = "quick", level = "exploration"; int64_t one = -1;
  bool noWarm = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = atoi(v().c_str() + 1);
    else if (a == "--seed") seed = strtoull(v().c_str(), nullptr, 10);
    else if (a == "--runs") runs = std::min<uint64_t>(MAXRUNS, strtoull(v().c_str(), nullptr, 10));
    else if (a == "--wall") wallCap = atof(v().c_str());
    else if (a == "--shrink") shrinkS = atof(v().c_str());
    else if (a == "--jobs") jobs = std::min(60, atoi(v().c_str()));
    else if (a == "--evidence") evid = v();
    else if (a == "--replays") replays = v();
    else if (a == "--known") knownFile = v();
    else if (a == "--replay") replay = v();
    else if (a == "--tier") tier = v();
    else if (a == "--one") one = atoll(v().c_str());
    else if (a == "--no-warm") noWarm = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  std::vector<uint32_t> rc; std::string rkind, rhash;
  if (!replay.empty()) {
    std::ifstream f(replay); std::string l; bool ok = false;
    if (!f) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
    while (std::getline(f, l)) {
      if (l.compare(0, 9, "property ") == 0) prop = atoi(l.c_str() + 10);
      if (l.compare(0, 5, "kind ") == 0) rkind = l.substr(5);
      if (l.compare(0, 5, "hash ") == 0) rhash = l.substr(5);
      if (l.compare(0, 8, "choices ") == 0) { size_t n = (size_t)atoll(l.c_str() + 8); uint32_t x; while (rc.size() < n && f >> x) rc.push_back(x); ok = rc.size() == n; break; }
    }
    if (!ok) { fprintf(stderr, "%s is no replay file\n", replay.c_str()); return 3; }
  }
  if (prop < 1 || (prop > 20 && prop != 24)) { fprintf(stderr, "no such property\n"); return 3; }
  char pname[8]; snprintf(pname, sizeof pname, "C%02d", prop);
  if (!knownFile.empty()) loadKnown(knownFile.c_str(), pname);
  double t0 = wall();
  auto shm = [](size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };
  agg = (Agg *)shm(sizeof(Agg)); agg->firstViol = -1;
  runHash = (uint64_t *)shm(MAXRUNS * 8); runShape = (uint64_t *)shm(MAXRUNS * 8); runNontrivial = (uint8_t *)shm(MAXRUNS);
  for (int i = 0; i < std::max(1, jobs); i++) slots[i] = (Slot *)shm(sizeof(Slot));
  char tmpl[] = "/tmp/vsim.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; } scratchDir = tmpl;
  signal(SIGPIPE, SIG_IGN);
  RAND_set_rand_method(&detRand); resetRand();
  setenv("SSL_CERT_FILE", (scratchDir + "/ca.pem").c_str(), 1); setenv("SSL_CERT_DIR", (scratchDir + "/nocerts").c_str(), 1);
  sslLedgerInit();
  certInit(scratchDir + "/ca.pem");
  poolInit(scratchDir);
  int ret = 0;
  if (!noWarm) {
    // try the warm-up in a child first: code that crashes there is left to the runs to report
    clearSlot(slots[0]); fflush(stdout);
    pid_t p = fork(); if (p == 0) { alarm(60); int n = open("/dev/null", O_WRONLY); dup2(n, 2); warmUp(); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[0]->status == 0) warmUp();
  }
  if (one >= 0 || !replay.empty()) {
    Spec sp{prop, mixSeed(seed, prop, (uint64_t)std::max<int64_t>(0, one))}; if (!replay.empty()) sp.replay = &rc;
    errFd = -1; sp.tracing = true;
    int fds[2]; (void)fds;
    errFd = (int)syscall(SYS_memfd_create, "err", 0);
    sp.tracing = false; Result r0 = runOnce(sp, slots[0]);
    uint64_t h0 = slots[0]->hash;
    sp.tracing = true; int keep = errFd; errFd = -1; Result r = runOnce(sp, slots[0]); errFd = keep;
    if (r0.status == 2) {
      printf("%s %s\n%s\nhash %016llx choices %u\n", r0.prop.c_str(), r0.kind.c_str(), r0.msg.c_str(), (unsigned long long)h0, slots[0]->nChoices);
      if (!replay.empty()) { char hx[32]; snprintf(hx, sizeof hx, "%016llx", (unsigned long long)h0); printf("%s\n", r0.kind == rkind && rhash == hx ? "replay: reproduced exactly" : "replay: a violation, but not the recorded one"); printf("VIOLATION property=%s replay=%s\n", pname, replay.c_str()); }
      ret = 1;
    } else { printf("no violation (status %u %s) hash %016llx choices %u\n", r0.status, r0.msg.c_str(), (unsigned long long)h0, slots[0]->nChoices); ret = r0.status == 1 ? 0 : 3; }
    rmScratch();
    return ret;
  }
  std::vector<pid_t> ps;
  double deadline = t0 + wallCap;
  fflush(stdout);
  for (int w = 0; w < jobs; w++) { pid_t p = fork(); if (p == 0) { worker(w, prop, seed, runs, deadline); _exit(0); } ps.push_back(p); }
  for (pid_t p : ps) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (!agg->harness) { agg->harness = 1; snprintf(agg->harnessMsg, sizeof agg->harnessMsg, "a worker process died (status %x)", st); } } }
  double tRun = wall() - t0;
  int viols = 0; std::string violLine;
  if (agg->firstViol >= 0) {
    errFd = (int)syscall(SYS_memfd_create, "err", 0);
    uint64_t idx = (uint64_t)agg->firstViol, rs = mixSeed(seed, prop, idx);
    Spec sp{prop, rs}; Result a = runOnce(sp, slots[0]);
    std::vector<uint32_t> c(slots[0]->choices, slots[0]->choices + slots[0]->nChoices);
    sp.replay = &c; Result b = runOnce(sp, slots[0]);
    if (!same(a, b) || a.hash != b.hash) {
      fprintf(stderr, "error: run %llu reported \"%s\" (%s) but did not reproduce exactly (\"%s\" %s); in the search it was %s\n", (unsigned long long)idx, a.kind.c_str(), a.msg.c_str(), b.kind.c_str(), b.msg.c_str(), agg->firstWhat);
      rmScratch(); return 3;
    }
    int tries = 0; size_t before = c.size();
    std::vector<uint32_t> m = shrink(prop, a, c, shrinkS, &tries);
    Spec fs{prop, 1, &m}; Result f = runOnce(fs, slots[0]);
    if (!same(f, a)) { m = c; f = runOnce(Spec{prop, 1, &m}, slots[0]); }
    uint64_t fh = slots[0]->hash;
    std::string path = replays + "/" + pname + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
    FILE *o = fopen(path.c_str(), "w"); if (!o) { perror(path.c_str()); rmScratch(); return 3; }
    fprintf(o, "vsim-replay 1\nproperty %s\nkind %s\nmessage %s\nseed %llu run %llu (choices before minimisation %zu, after %zu, %d runs spent)\nhash %016llx\nchoices %zu\n", pname, f.kind.c_str(), esc(f.msg, 3000).c_str(), (unsigned long long)seed, (unsigned long long)idx, before, m.size(), tries, (unsigned long long)fh, m.size());
    for (size_t i = 0; i < m.size(); i++) fprintf(o, "%u%s", m[i], i % 40 == 39 ? "\n" : " ");
    fprintf(o, "\ntrace (simulated seconds, actor, call):\n"); fclose(o);
    // the human-readable schedule
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { int fd = open(path.c_str(), O_WRONLY | O_APPEND); dup2(fd, 1); Spec ts{prop, 1, &m}; ts.tracing = true; int nfd = open("/dev/null", O_WRONLY); dup2(nfd, 2); clearSlot(slots[0]); childMain(ts, slots[0]); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    printf("%s: %s\n%s\n", pname, f.kind.c_str(), f.msg.c_str());
    violLine = fmt("VIOLATION property=%s replay=%s", pname, path.c_str());
    viols = 1; ret = 1;
  }
  if (agg->harness && !viols) { fprintf(stderr, "error of the check: %s\n", agg->harnessMsg); ret = 3; }
  // ---- evidence ----
  uint64_t runsDone = agg->runs;
  std::unordered_set<uint64_t> dh, dsx, dn; uint64_t top = std::min<uint64_t>((uint64_t)agg->next, runs);
  for (uint64_t i = 0; i < top; i++) if (runHash[i]) { dh.insert(runHash[i]); dsx.insert(runShape[i]); if (runNontrivial[i]) dn.insert(runShape[i]); }
  uint64_t edges = 0; for (int w = 0; w < jobs; w++) for (size_t k = 0; k < sizeof slots[0]->edges; k++) agg->edges[k] |= slots[w]->edges[k];
  for (size_t k = 0; k < sizeof agg->edges; k++) edges += (uint64_t)__builtin_popcount(agg->edges[k]);
  if (!evid.empty() && ret != 3) {
    FILE *o = fopen(evid.c_str(), "w"); if (!o) { perror(evid.c_str()); rmScratch(); return 3; }
    fprintf(o, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"%s\",\n \"coverage\": {\n", pname, tier.c_str(), (unsigned long long)seed, level.c_str());
    fprintf(o, "  \"evaluations\": %llu, \"distinct_nontrivial\": %zu,\n", (unsigned long long)runsDone, dn.size());
    fprintf(o, "  \"rule\": \"one evaluation is one simulated run: clients, server behaviour, network, faults, schedule and messages are all drawn from one seed. Non-trivial: at least one send was made and at least one perturbation or fault fired (or several sends were made). Distinct: by the hash of the session shape (sequence of protocol steps with reply codes, fault kinds in firing order, TLS state, result codes).\",\n");
    fprintf(o, "  \"samples\": [");
    bool first = true; for (auto &s : agg->sample) if (s[0]) { fprintf(o, "%s%s", first ? "" : ", ", jesc(s).c_str()); first = false; }
    if (first) fprintf(o, "%s", jesc(slots[0]->sample).c_str());
    fprintf(o, "],\n  \"nontrivial_runs\": %llu, \"distinct_shapes\": %zu, \"distinct_executions\": %zu,\n", (unsigned long long)agg->nontrivial, dsx.size(), dh.size());
    fprintf(o, "  \"runs_per_hour\": %.0f, \"seeds_per_hour\": %.0f, \"simulated_seconds\": %.1f, \"simulated_system_calls\": %llu,\n", runsDone / tRun * 3600, runsDone / tRun * 3600, agg->simNs / 1e9, (unsigned long long)agg->steps);
    fprintf(o, "  \"calls\": %llu, \"sends\": %llu, \"messages_accepted\": %llu, \"connections\": %llu, \"thread_switches\": %llu,\n", (unsigned long long)agg->ops, (unsigned long long)agg->sends, (unsigned long long)agg->delivered, (unsigned long long)agg->conns, (unsigned long long)agg->switches);
    fprintf(o, "  \"library_edges_reached\": %llu, \"determinism_rechecks\": %llu, \"determinism_mismatches\": %llu, \"known_finding_runs\": %llu,\n  \"faults_injected\": {", (unsigned long long)edges, (unsigned long long)agg->detChecked, (unsigned long long)agg->detBad, (unsigned long long)agg->kf);
    first = true; for (int k = 0; k < F_COUNT; k++) if (agg->faults[k]) { fprintf(o, "%s\"%s\": {\"times\": %llu, \"runs\": %llu}", first ? "" : ", ", faultNames[k], (unsigned long long)agg->faults[k], (unsigned long long)agg->faultRuns[k]); first = false; }
    fprintf(o, "},\n  \"real_components\": [\"all of /repo/src and /repo/src/cpp, unmodified, instrumented with AddressSanitizer and UBSan\", \"OpenSSL (client and server side), libstdc++\"],\n");
    fprintf(o, "  \"stubbed_components\": [\"kernel sockets, poll/select, name resolution\", \"clocks, sleeping\", \"thread scheduling, mutexes\", \"file reads of attachments (real files, injected faults)\", \"SMTP server (strict model)\", \"random numbers of OpenSSL\"]\n },\n");
    fprintf(o, " \"assumptions\": [\"the libc seam covers every way the library reaches the system\", \"the server model follows RFC 5321, 3207, 4954\", \"one machine type (Linux x86-64), POSIX code path only\"],\n");
    fprintf(o, " \"wall_s\": %.1f, \"violations\": %d\n}\n", wall() - t0, viols);
    fclose(o);
  }
  if (agg->detBad) fprintf(stderr, "warning: %llu of %llu re-executed runs differed\n", (unsigned long long)agg->detBad, (unsigned long long)agg->detChecked);
  for (auto &k : known) { size_t p = k.text.find("property="); printf("KNOWN-FINDING: %s\n", k.text.substr(p).c_str()); }
  if (ret == 0) printf("%s: held on %llu simulated runs (%zu distinct shapes, %.0f simulated s) in %.1f s\n", pname, (unsigned long long)runsDone, dsx.size(), agg->simNs / 1e9, wall() - t0);
  if (!violLine.empty()) printf("%s\n", violLine.c_str());
  rmScratch();
  return ret;
}
