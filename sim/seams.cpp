// The operating-system seam: libc entry points used by the library, by the C++
// runtime's file streams and by OpenSSL, redirected into the simulated world
// while library code runs. Anything else passes through to the kernel.
#undef _FORTIFY_SOURCE
#include "core.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include "server.h"

std::vector<ForeignUse> foreignUses;
static inline bool sim() { return inLib > 0 && W && W->active && me; }
static Conn *conn(int fd, const char *call) {
  auto it = W->fds.find(fd);
  if (it == W->fds.end()) {
    if (W->files.count(fd)) return nullptr;
    foreignUses.push_back({curOp(), call, fd, "a descriptor that is not open"});
    tr("FOREIGN %s(fd %d)", call, fd);
    return nullptr;
  }
  Conn *c = it->second;
  if (c->client >= 0 && libClient >= 0 && c->client != libClient) {
    foreignUses.push_back({curOp(), call, fd, fmt("a descriptor of client %d", c->client)});
    tr("FOREIGN %s(fd %d) owner client %d", call, fd, c->client);
  }
  return c;
}
static bool isFile(int fd) { return W->files.count(fd) > 0; }
template <class T> static T real(const char *n) { return (T)dlsym(RTLD_NEXT, n); }

static void enter() {
  tick();
  if (W->nf.clockJump && CH.chance(W->nf.clockJump)) {
    static const int64_t j[] = {3600, -3600, 86400, -86400, 30, -30};
    W->wallSkew += j[CH.draw(6)];
    fired(F_clock_jump);
  }
}
static int allocFd() {
  if (W->nf.fdZero && !W->fds.count(0) && CH.chance(W->nf.fdZero)) { fired(F_fd_zero); return 0; }
  if (W->nf.fdLarge && CH.chance(W->nf.fdLarge)) { fired(F_fd_large); int f = 1100; while (W->fds.count(f)) f++; return f; }
  int f = 200; while (W->fds.count(f)) f++;
  return f;
}

extern "C" {

int socket(int domain, int type, int proto) {
  if (!sim()) return (int)syscall(SYS_socket, domain, type, proto);
  Seam s; enter();
  static const int errs[] = {EMFILE, ENFILE, ENOBUFS, EACCES};
  if (W->nf.sockFail && CH.chance(W->nf.sockFail) && takeTerminal(F_socket_fail, "socket")) { errno = errs[CH.draw(4)]; return -1; }
  auto *c = new Conn;
  c->id = (int)W->conns.size() + 1;
  c->fd = allocFd();
  c->client = libClient; c->actor = me->id; c->opCreated = curOp();
  if (type & SOCK_NONBLOCK) c->nonblock = true;
  W->conns.push_back(c); W->fds[c->fd] = c;
  slot->conns++;
  tr("socket() = %d conn%d", c->fd, c->id);
  yieldPoint();
  return c->fd;
}

static void startConnect(Conn *c, const sockaddr *sa, bool *immediate) {
  *immediate = false;
  auto *in = (const sockaddr_in *)sa;
  uint32_t ip = ntohl(in->sin_addr.s_addr); int port = ntohs(in->sin_port);
  Server *srv = nullptr;
  for (auto *x : W->servers) if (x->ip == ip && x->port == port) srv = x;
  ns_t lat = 1 * MS;
  int err = 0;
  if (W->nf.maxConnDelay && W->nf.connSlow && CH.chance(W->nf.connSlow)) {
    lat = (ns_t)CH.draw((uint32_t)(W->nf.maxConnDelay / MS) + 1) * MS; fired(F_connect_slow, fmt("%lld ms", (long long)(lat / MS)));
    if (Op *o = curOpPtr()) o->injected += lat;
  }
  if (srv && srv->down) fired(F_server_restart, "connect while the server is down");
  if (!srv || srv->down) err = ECONNREFUSED;
  if (W->nf.connRefused && CH.chance(W->nf.connRefused) && takeTerminal(F_connect_refused, "connect")) err = ECONNREFUSED;
  else if (W->nf.connUnreach && CH.chance(W->nf.connUnreach) && takeTerminal(F_connect_unreach, "connect")) err = CH.draw(2) ? ENETUNREACH : EHOSTUNREACH;
  else if (((W->nf.connHole && CH.chance(W->nf.connHole)) || (srv && srv->cfg.hole)) && takeTerminal(F_connect_blackhole, "connect")) { err = ETIMEDOUT; lat = 127 * SEC; }
  if (W->nf.connImmediate && err != ETIMEDOUT && CH.chance(W->nf.connImmediate)) { lat = 0; fired(F_connect_immediate); }
  c->srv = srv; c->st = Conn::Connecting;
  auto done = [c, srv, err]() {
    if (!c->open) return;
    if (err) { c->st = Conn::Failed; c->soError = err; tr("conn%d connect failed %d", c->id, err); }
    else { c->st = Conn::Established; tr("conn%d established", c->id); srv->onAccept(c); }
  };
  if (lat == 0) { done(); *immediate = true; } else at(W->now + lat, done);
}
int connect(int fd, const struct sockaddr *sa, socklen_t len) {
  if (!sim()) return (int)syscall(SYS_connect, fd, sa, len);
  Seam s; enter();
  Conn *c = conn(fd, "connect"); if (!c) { errno = EBADF; return -1; }
  if (c->st == Conn::Established) { errno = EISCONN; return -1; }
  if (c->st == Conn::Connecting) { errno = EALREADY; return -1; }
  bool imm; startConnect(c, sa, &imm);
  if (imm) { yieldPoint(); if (c->st == Conn::Failed) { errno = c->soError; c->soError = 0; return -1; } return 0; }
  if (c->nonblock) { yieldPoint(); errno = EINPROGRESS; return -1; }
  if (W->nf.eintr && CH.chance(W->nf.eintr)) { fired(F_eintr_connect); errno = EINTR; return -1; }
  ns_t dl = c->sndto ? W->now + c->sndto : NEVER;
  if (!blockUntil([c]() { return c->st != Conn::Connecting; }, dl)) { errno = EINPROGRESS; return -1; }
  if (c->st == Conn::Failed) { errno = c->soError; c->soError = 0; return -1; }
  return 0;
}

int close(int fd) {
  if (!sim()) return (int)syscall(SYS_close, fd);
  Seam s; enter();
  if (W->files.count(fd)) { W->files.erase(fd); return (int)syscall(SYS_close, fd); }
  Conn *c = conn(fd, "close"); if (!c) { errno = EBADF; return -1; }
  c->open = false; c->closedAtOp = curOp();
  W->fds.erase(fd);
  tr("close(%d) conn%d", fd, c->id);
  if (c->srv && c->srvSess >= 0) {
    ns_t t = std::max(W->now + 1 * MS + c->c2sLat, c->lastC2s); c->lastC2s = t;
    bool rst = !c->rx.empty();
    at(t, [c, rst]() { c->srv->onClose(c, rst); });
  }
  yieldPoint();
  // interrupted, but the descriptor is released all the same (as Linux does it)
  if (W->nf.eintr && CH.chance(W->nf.eintr)) { fired(F_eintr_close); errno = EINTR; return -1; }
  return 0;
}
int shutdown(int fd, int how) {
  if (!sim()) return (int)syscall(SYS_shutdown, fd, how);
  Seam s; enter();
  Conn *c = conn(fd, "shutdown"); if (!c) { errno = EBADF; return -1; }
  if (c->st != Conn::Established) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD && !c->shutWr) {
    c->shutWr = true;
    ns_t t = std::max(W->now + 1 * MS, c->lastC2s); c->lastC2s = t;
    at(t, [c]() { if (c->srv) c->srv->onClose(c, false); });
  }
  return 0;
}

static ssize_t sigpipe(int flags) {
  if (!(flags & MSG_NOSIGNAL)) { tr("SIGPIPE"); pthread_kill(pthread_self(), SIGPIPE); }
  errno = EPIPE; return -1;
}
static void pushC2s(Conn *c, const char *p, size_t n) {
  c->rawTx.append(p, n);
  c->meta.push_back({c->rawTx.size(), curOp(), c->consumed, W->now});
  c->queued += n;
  if (c->meta.size() == 1500) c->sndCap = std::max<size_t>(c->sndCap, 65536);   // a small buffer does not stay small for megabytes
  ns_t lat = 1 * MS + c->c2sLat;
  if (W->nf.c2sDelay && c->c2sDelaySum < 300 * MS && CH.chance(W->nf.c2sDelay)) { ns_t d = (ns_t)CH.draw(120) * MS; lat += d; c->c2sDelaySum += d; fired(F_c2s_delay); if (Op *o = curOpPtr()) o->injected += d; }
  ns_t t = std::max(W->now + lat, c->lastC2s);
  if (c->slowDrain && !(c->oneDeadline && c->c2sDelaySum > 300 * MS)) {   // the peer drains slowly, but never lags more than 300 ms behind
    t = std::max(t, std::min(c->lastC2s + c->slowDrain, W->now + 300 * MS));
    c->c2sDelaySum += c->slowDrain; if (Op *o = curOpPtr()) o->injected += c->slowDrain;
  }
  c->lastC2s = t;
  std::string part(p, n);
  tr("net conn%d -> %zu bytes", c->id, n);
  W->hash = fnv(W->hash, p, n);
  at(t, [c, part]() {
    if (c->srvClosed) {
      c->queued -= std::min(c->queued, part.size());
      if (!c->rxRst) at(W->now + 1 * MS, [c]() { if (!c->rxRst) { c->rxRst = true; c->rx.clear(); tr("net conn%d <- RST (closed peer)", c->id); } });
      return;
    }
    if (c->srvStall) { c->stalledData += part; return; }
    c->queued -= std::min(c->queued, part.size());
    if (c->srv) c->srv->onBytes(c, part);
  });
}
static void noteHard(char k) { Op *o = curOpPtr(); if (o && !o->firstHard && errno != EAGAIN && errno != EINTR) o->firstHard = k; }
static ssize_t doSend0(int fd, const char *buf, size_t len, int flags, const char *call) {
  enter();
  Conn *c = conn(fd, call); if (!c) { errno = EBADF; return -1; }
  yieldPoint();
  runDue();
  if (c->st == Conn::Fresh || c->st == Conn::Connecting) { errno = c->st == Conn::Fresh ? EPIPE : EAGAIN; if (c->st == Conn::Fresh) return sigpipe(flags); return -1; }
  if (c->st == Conn::Failed) { if (c->soError) { errno = c->soError; c->soError = 0; return -1; } return sigpipe(flags); }
  if (c->shutWr) return sigpipe(flags);
  if (W->nf.sendFail && CH.chance(W->nf.sendFail) && takeTerminal(F_send_fail, fmt("conn%d send", c->id))) {
    static const int e[] = {ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENOBUFS};
    errno = e[CH.draw(4)]; c->rxRst = true; c->rstReported = true; c->rx.clear();
    if (c->srv) { Conn *cc = c; at(W->now + 1 * MS, [cc]() { cc->srv->onClose(cc, true); }); }
    return -1;
  }
  bool block = !(c->nonblock || (flags & MSG_DONTWAIT));
  ns_t dl = c->sndto ? W->now + c->sndto : NEVER;
  size_t done = 0;
  if (len == 0) return 0;
  if (W->nf.eintr && block && CH.chance(W->nf.eintr)) { fired(F_eintr_send); errno = EINTR; return -1; }
  for (;;) {
    if (c->rxRst) {
      if (done) return (ssize_t)done;
      if (!c->rstReported) { c->rstReported = true; errno = ECONNRESET; return -1; }
      return sigpipe(flags);
    }
    size_t space = c->sndCap > c->queued ? c->sndCap - c->queued : 0;
    if (space) {
      size_t n = std::min(space, len - done);
      bool cut = false;
      if (n > 1 && W->nf.shortSend && CH.chance(W->nf.shortSend)) {
        n = CH.draw(2) ? 1 + CH.draw((uint32_t)n - 1) : n - 1 - CH.draw((uint32_t)std::min<size_t>(n - 1, 3)); if (n == 0) n = 1;
        cut = true; fired(F_short_send, fmt("%zu of %zu", n, len));
      }
      pushC2s(c, buf + done, n);
      done += n;
      if (done == len || cut || !block) { yieldPoint(); return (ssize_t)done; }
      continue;
    }
    if (!block) { if (done) return (ssize_t)done; errno = EAGAIN; return -1; }
    ns_t w0 = W->now;
    if (!blockUntil([c]() { return c->rxRst || c->sndCap > c->queued; }, dl)) {
      if (done) return (ssize_t)done;
      errno = EAGAIN; return -1;
    }
    if (!c->srvStall) if (Op *o = curOpPtr()) o->injected += W->now - w0;
  }
}
static ssize_t doSend(int fd, const char *buf, size_t len, int flags, const char *call) {
  ssize_t r = doSend0(fd, buf, len, flags, call);
  if (r < 0) noteHard('s');
  return r;
}
static ssize_t doRecv0(int fd, char *buf, size_t len, int flags, const char *call) {
  enter();
  Conn *c = conn(fd, call); if (!c) { errno = EBADF; return -1; }
  yieldPoint();
  runDue();
  if (c->st != Conn::Established) { errno = ENOTCONN; return -1; }
  if (W->nf.recvFail && CH.chance(W->nf.recvFail) && takeTerminal(F_recv_fail, fmt("conn%d recv", c->id))) {
    static const int e[] = {ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENOMEM};
    errno = e[CH.draw(4)]; c->rxRst = true; c->rstReported = true; c->rx.clear();
    if (c->srv) { Conn *cc = c; at(W->now + 1 * MS, [cc]() { cc->srv->onClose(cc, true); }); }
    return -1;
  }
  bool block = !(c->nonblock || (flags & MSG_DONTWAIT));
  if (W->nf.eintr && block && CH.chance(W->nf.eintr)) { fired(F_eintr_recv); errno = EINTR; return -1; }
  ns_t dl = c->rcvto ? W->now + c->rcvto : NEVER;
  size_t done = 0;
  for (;;) {
    if (!c->rx.empty()) {
      size_t n = std::min(len - done, c->rx.size());
      if (n > 1 && W->nf.shortRecv && CH.chance(W->nf.shortRecv)) { n = 1 + CH.draw((uint32_t)n - 1); fired(F_short_recv); }
      memcpy(buf + done, c->rx.data(), n);
      if (!(flags & MSG_PEEK)) { c->rx.erase(0, n); c->consumed += n; }
      done += n;
      if ((flags & MSG_WAITALL) && !(flags & MSG_PEEK) && block && done < len) continue;
      tr("recv conn%d %zu", c->id, done);
      yieldPoint();
      return (ssize_t)done;
    }
    if (c->rxRst) { if (done) return (ssize_t)done; if (!c->rstReported) { c->rstReported = true; errno = ECONNRESET; return -1; } return 0; }
    if (c->rxFin) return (ssize_t)done;
    if (len == 0) return 0;
    if (!block) { if (done) return (ssize_t)done; errno = EAGAIN; return -1; }
    if (!blockUntil([c]() { return !c->rx.empty() || c->rxRst || c->rxFin; }, dl)) { if (done) return (ssize_t)done; errno = EAGAIN; return -1; }
  }
}
static ssize_t doRecv(int fd, char *buf, size_t len, int flags, const char *call) {
  ssize_t r = doRecv0(fd, buf, len, flags, call);
  if (r == 0 && len) { errno = 0; noteHard('r'); }
  if (r < 0) noteHard('r');
  return r;
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
  if (!sim()) return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
  Seam s; return doSend(fd, (const char *)b, n, fl, "send");
}
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al) {
  if (!sim()) return syscall(SYS_sendto, fd, b, n, fl, a, al);
  Seam s; return doSend(fd, (const char *)b, n, fl, "sendto");
}
static ssize_t gatherSend(int fd, const struct iovec *v, int cnt, int fl, const char *call) {
  std::string d; for (int i = 0; i < cnt; i++) d.append((const char *)v[i].iov_base, v[i].iov_len);
  return doSend(fd, d.data(), d.size(), fl, call);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
  if (!sim()) return syscall(SYS_sendmsg, fd, m, fl);
  Seam s; return gatherSend(fd, m->msg_iov, (int)m->msg_iovlen, fl, "sendmsg");
}
ssize_t writev(int fd, const struct iovec *v, int cnt) {
  if (!sim() || isFile(fd)) return syscall(SYS_writev, fd, v, cnt);
  if (fd == 1 || fd == 2) return syscall(SYS_writev, fd, v, cnt);
  Seam s; return gatherSend(fd, v, cnt, 0, "writev");
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!sim() || isFile(fd)) return syscall(SYS_write, fd, b, n);
  if ((fd == 1 || fd == 2) && !W->fds.count(fd)) return syscall(SYS_write, fd, b, n);
  Seam s; return doSend(fd, (const char *)b, n, 0, "write");
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
  if (!sim()) return syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
  Seam s; return doRecv(fd, (char *)b, n, fl, "recv");
}
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al) {
  if (!sim()) return syscall(SYS_recvfrom, fd, b, n, fl, a, al);
  Seam s; return doRecv(fd, (char *)b, n, fl, "recvfrom");
}
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
  if (!sim()) return syscall(SYS_recvmsg, fd, m, fl);
  Seam s; if (!m->msg_iovlen) return 0;
  return doRecv(fd, (char *)m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, "recvmsg");
}
static ssize_t fileRead(int fd, void *b, size_t n) {
  enter();
  yieldPoint();
  auto it = W->fileFaults.find(W->files[fd]);
  off_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
  if (it != W->fileFaults.end()) {
    FileFault &ff = it->second;
    switch (ff.kind) {
      case F_disk_read_eio: if ((uint64_t)pos + n > ff.at) {
          if ((uint64_t)pos < ff.at) { n = ff.at - pos; break; }
          fired(F_disk_read_eio, fmt("errno %d at %lld", ff.err, (long long)pos)); errno = ff.err; return -1; } break;
      case F_disk_shrink: if ((uint64_t)pos >= ff.at) { fired(F_disk_shrink, fmt("at %lld", (long long)pos)); return 0; }
          if ((uint64_t)pos + n > ff.at) n = ff.at - pos; break;
      case F_disk_read_short: if (n > 1) { n = 1 + CH.draw((uint32_t)std::min<size_t>(n - 1, ff.at ? ff.at : 1)); fired(F_disk_read_short); } break;
      case F_disk_read_eintr: if (n && CH.chance(300)) { fired(F_disk_read_eintr); errno = EINTR; return -1; } break;
    }
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
  if (!sim()) return syscall(SYS_read, fd, b, n);
  if (isFile(fd)) { Seam s; return fileRead(fd, b, n); }
  Seam s; return doRecv(fd, (char *)b, n, 0, "read");
}
ssize_t readv(int fd, const struct iovec *v, int cnt) {
  if (!sim()) return syscall(SYS_readv, fd, v, cnt);
  Seam s; if (cnt < 1) return 0;
  if (isFile(fd)) return fileRead(fd, v[0].iov_base, v[0].iov_len);
  return doRecv(fd, (char *)v[0].iov_base, v[0].iov_len, 0, "readv");
}

static short revents(Conn *c, short ev) {
  short r = 0;
  if (c->st == Conn::Connecting || c->st == Conn::Fresh) return c->st == Conn::Fresh ? (short)(POLLOUT | POLLHUP) & (ev | POLLHUP) : 0;
  if (c->st == Conn::Failed) { r = POLLOUT | POLLIN | POLLHUP; if (c->soError) r |= POLLERR; return (short)(r & (ev | POLLERR | POLLHUP)); }
  if (!c->rx.empty() || c->rxFin || c->rxRst) r |= POLLIN | POLLRDNORM;
  if (c->rxFin) r |= POLLRDHUP;
  if (c->rxRst) r |= POLLERR | POLLHUP | POLLOUT;
  if (c->rxFin && c->shutWr) r |= POLLHUP;
  if (c->sndCap > c->queued) r |= POLLOUT | POLLWRNORM;
  return (short)(r & (ev | POLLERR | POLLHUP));
}
static int doPoll(struct pollfd *p, nfds_t n, ns_t timeout /* <0 = forever */, const char *call) {
  enter();
  for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0) conn(p[i].fd, call);
  if (W->nf.pollFail && CH.chance(W->nf.pollFail) && takeTerminal(F_poll_fail, call)) { errno = ENOMEM; return -1; }
  yieldPoint(); runDue();
  auto ready = [p, n]() {
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
      if (p[i].fd < 0) continue;
      auto it = W->fds.find(p[i].fd);
      if (it == W->fds.end()) { k++; continue; }
      if (revents(it->second, p[i].events)) k++;
    }
    return k > 0;
  };
  ns_t dl = timeout < 0 ? NEVER : W->now + timeout, w0 = W->now;
  if (W->nf.eintr && !ready() && timeout != 0 && CH.chance(W->nf.eintr)) {
    ns_t span = timeout < 0 ? 2 * SEC : timeout;
    ns_t d = (ns_t)CH.draw((uint32_t)(span / MS) + 1) * MS;
    if (!blockUntil(ready, std::min(dl, W->now + d))) { fired(F_eintr_poll); errno = EINTR; return -1; }
  } else if (timeout != 0) blockUntil(ready, dl);
  int k = 0;
  if (n == 1 && p[0].fd >= 0 && (p[0].events & POLLOUT)) {      // waiting for a peer that does drain is the network's time
    auto it = W->fds.find(p[0].fd);
    if (it != W->fds.end() && it->second->st == Conn::Established && !it->second->srvStall && it->second->sndCap > it->second->queued)
      if (Op *o = curOpPtr()) o->injected += W->now - w0;
  }
  for (nfds_t i = 0; i < n; i++) {
    p[i].revents = 0;
    if (p[i].fd < 0) continue;
    auto it = W->fds.find(p[i].fd);
    p[i].revents = it == W->fds.end() ? (short)POLLNVAL : revents(it->second, p[i].events);
    if (p[i].revents) k++;
  }
  return k;
}
int poll(struct pollfd *p, nfds_t n, int ms) {
  if (!sim()) return (int)syscall(SYS_poll, p, n, ms);
  Seam s; return doPoll(p, n, ms < 0 ? -1 : (ns_t)ms * MS, "poll");
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *m) {
  if (!sim()) return (int)syscall(SYS_ppoll, p, n, ts, m, 8);
  Seam s; return doPoll(p, n, ts ? ts->tv_sec * SEC + ts->tv_nsec : -1, "ppoll");
}
static int doSelect(int nfds, fd_set *r, fd_set *w, fd_set *e, ns_t timeout) {
  std::vector<pollfd> v;
  for (int i = 0; i < nfds && i < FD_SETSIZE; i++) {
    short ev = 0;
    if (r && FD_ISSET(i, r)) ev |= POLLIN;
    if (w && FD_ISSET(i, w)) ev |= POLLOUT;
    bool ex = e && FD_ISSET(i, e);
    if (ev || ex) { v.push_back({i, ev, 0}); if (!W->fds.count(i)) { conn(i, "select"); errno = EBADF; return -1; } }
  }
  int k = doPoll(v.data(), v.size(), timeout, "select");
  if (k < 0) return k;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  int cnt = 0;
  for (auto &x : v) {
    if (r && (x.events & POLLIN) && (x.revents & (POLLIN | POLLERR | POLLHUP))) { FD_SET(x.fd, r); cnt++; }
    if (w && (x.events & POLLOUT) && (x.revents & (POLLOUT | POLLERR))) { FD_SET(x.fd, w); cnt++; }
  }
  return cnt;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  if (!sim()) return (int)syscall(SYS_select, n, r, w, e, tv);
  Seam s;
  ns_t t0 = W->now, to = tv ? tv->tv_sec * SEC + tv->tv_usec * US : -1;
  int k = doSelect(n, r, w, e, to);
  int er = errno;
  if (tv) { ns_t left = std::max<ns_t>(0, to - (W->now - t0)); tv->tv_sec = left / SEC; tv->tv_usec = (left % SEC) / US; }
  errno = er;
  return k;
}
int pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *m) {
  (void)m;
  if (!sim()) return real<int (*)(int, fd_set *, fd_set *, fd_set *, const timespec *, const sigset_t *)>("pselect")(n, r, w, e, ts, m);
  Seam s; return doSelect(n, r, w, e, ts ? ts->tv_sec * SEC + ts->tv_nsec : -1);
}

static int doFcntl(int fd, int cmd, long arg) {
  Conn *c = conn(fd, "fcntl");
  enter();
  if (!c) {
    if (isFile(fd)) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    errno = EBADF; return -1;
  }
  if ((cmd == F_GETFL || cmd == F_SETFL) && W->nf.fcntlFail && CH.chance(W->nf.fcntlFail) && takeTerminal(F_fcntl_fail, cmd == F_GETFL ? "getfl" : "setfl")) { errno = EPERM; return -1; }
  switch (cmd) {
    case F_GETFL: return O_RDWR | (c->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: c->nonblock = (arg & O_NONBLOCK) != 0; return 0;
    case F_GETFD: return c->cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: c->cloexec = arg & FD_CLOEXEC; return 0;
  }
  errno = EINVAL; return -1;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!sim()) return (int)syscall(SYS_fcntl, fd, cmd, arg);
  Seam s; return doFcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!sim()) return (int)syscall(SYS_fcntl, fd, cmd, arg);
  Seam s; return doFcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
  if (!sim() || isFile(fd)) return (int)syscall(SYS_ioctl, fd, req, arg);
  Seam s; enter();
  Conn *c = conn(fd, "ioctl"); if (!c) { errno = EBADF; return -1; }
  if (req == FIONBIO) { c->nonblock = *(int *)arg != 0; return 0; }
  if (req == FIONREAD) { *(int *)arg = (int)c->rx.size(); return 0; }
  errno = ENOTTY; return -1;
}
int getsockopt(int fd, int lvl, int name, void *val, socklen_t *len) {
  if (!sim()) return (int)syscall(SYS_getsockopt, fd, lvl, name, val, len);
  Seam s; enter();
  Conn *c = conn(fd, "getsockopt"); if (!c) { errno = EBADF; return -1; }
  if (lvl == SOL_SOCKET && name == SO_ERROR) {
    if (W->nf.getsockFail && CH.chance(W->nf.getsockFail) && takeTerminal(F_getsockopt_fail, "SO_ERROR")) { errno = ENOBUFS; return -1; }
    int e = c->soError; c->soError = 0;
    if (c->rxRst && !c->rstReported) { e = ECONNRESET; c->rstReported = true; }
    memcpy(val, &e, sizeof e); *len = sizeof e; return 0;
  }
  if (lvl == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO)) {
    timeval tv; ns_t v = name == SO_RCVTIMEO ? c->rcvto : c->sndto; tv.tv_sec = v / SEC; tv.tv_usec = v % SEC / US;
    memcpy(val, &tv, sizeof tv); *len = sizeof tv; return 0;
  }
  int z = 0;
  if (lvl == SOL_SOCKET && name == SO_TYPE) z = SOCK_STREAM;
  memcpy(val, &z, std::min<size_t>(sizeof z, *len)); return 0;
}
int setsockopt(int fd, int lvl, int name, const void *val, socklen_t len) {
  if (!sim()) return (int)syscall(SYS_setsockopt, fd, lvl, name, val, len);
  Seam s; enter();
  Conn *c = conn(fd, "setsockopt"); if (!c) { errno = EBADF; return -1; }
  if (lvl == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && len >= sizeof(timeval)) {
    auto *tv = (const timeval *)val;
    (name == SO_RCVTIMEO ? c->rcvto : c->sndto) = tv->tv_sec * SEC + tv->tv_usec * US;
  }
  return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  if (!sim()) return (int)syscall(SYS_getpeername, fd, a, l);
  Seam s; Conn *c = conn(fd, "getpeername"); if (!c) { errno = EBADF; return -1; }
  if (c->st != Conn::Established || !c->srv) { errno = ENOTCONN; return -1; }
  sockaddr_in in{}; in.sin_family = AF_INET; in.sin_port = htons((uint16_t)c->srv->port); in.sin_addr.s_addr = htonl(c->srv->ip);
  memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
  if (!sim()) return (int)syscall(SYS_getsockname, fd, a, l);
  Seam s; Conn *c = conn(fd, "getsockname"); if (!c) { errno = EBADF; return -1; }
  sockaddr_in in{}; in.sin_family = AF_INET; in.sin_port = htons((uint16_t)(40000 + c->id)); in.sin_addr.s_addr = htonl(0x0a0000fe);
  memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0;
}

// ---- name resolution ----
static int resolve(const char *name, uint32_t *ip) {
  if (W->nf.dnsSlow && CH.chance(W->nf.dnsSlow)) {
    ns_t d = (ns_t)CH.draw(800) * MS; fired(F_dns_slow); if (Op *o = curOpPtr()) o->injected += d;
    blockUntil([]() { return false; }, W->now + d);
  }
  yieldPoint();
  if (W->nf.dnsFail && CH.chance(W->nf.dnsFail) && takeTerminal(F_dns_fail, name)) return CH.draw(2) ? TRY_AGAIN : HOST_NOT_FOUND;
  in_addr a;
  if (inet_pton(AF_INET, name, &a) == 1) { *ip = ntohl(a.s_addr); return 0; }
  for (auto *s : W->servers) if (s->host == name) { *ip = s->ip; return 0; }
  return HOST_NOT_FOUND;
}
static struct hostent he; static char heName[256]; static in_addr heAddr; static char *heList[2], *heAlias[1];
struct hostent *gethostbyname(const char *name) {
  if (!sim()) return real<hostent *(*)(const char *)>("gethostbyname")(name);
  Seam s; enter();
  uint32_t ip = 0; int r = resolve(name, &ip);
  tr("gethostbyname(%s) = %d %08x", name, r, ip);
  if (r) { h_errno = r; return nullptr; }
  snprintf(heName, sizeof heName, "%s", name); heAddr.s_addr = htonl(ip);
  heList[0] = (char *)&heAddr; heList[1] = nullptr; heAlias[0] = nullptr;
  he.h_name = heName; he.h_aliases = heAlias; he.h_addrtype = AF_INET; he.h_length = 4; he.h_addr_list = heList;
  yieldPoint();
  return &he;
}
struct hostent *gethostbyname2(const char *name, int af) {
  if (!sim()) return real<hostent *(*)(const char *, int)>("gethostbyname2")(name, af);
  return gethostbyname(name);
}
int gethostbyname_r(const char *name, struct hostent *ret, char *buf, size_t len, struct hostent **result, int *herr) {
  if (!sim()) return real<int (*)(const char *, hostent *, char *, size_t, hostent **, int *)>("gethostbyname_r")(name, ret, buf, len, result, herr);
  Seam s; enter();
  *result = nullptr;
  if (len < 128) return ERANGE;
  uint32_t ip = 0; int r = resolve(name, &ip);
  if (r) { *herr = r; return 0; }
  char **list = (char **)buf; in_addr *a = (in_addr *)(buf + 4 * sizeof(char *)); a->s_addr = htonl(ip);
  list[0] = (char *)a; list[1] = nullptr; list[2] = nullptr;
  ret->h_name = const_cast<char *>("host"); ret->h_aliases = list + 2; ret->h_addrtype = AF_INET; ret->h_length = 4; ret->h_addr_list = list;
  *result = ret; return 0;
}
static std::set<addrinfo *> liveAi;
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
  if (!sim()) return real<int (*)(const char *, const char *, const addrinfo *, addrinfo **)>("getaddrinfo")(node, service, hints, res);
  Seam s; enter();
  if (hints && hints->ai_family == AF_INET6) return EAI_NONAME;
  uint32_t ip = 0; int r = node ? resolve(node, &ip) : HOST_NOT_FOUND;
  tr("getaddrinfo(%s) = %d %08x", node ? node : "", r, ip);
  if (r) return r == TRY_AGAIN ? EAI_AGAIN : EAI_NONAME;
  auto *ai = (addrinfo *)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
  auto *in = (sockaddr_in *)(ai + 1);
  in->sin_family = AF_INET; in->sin_port = htons((uint16_t)(service ? atoi(service) : 0)); in->sin_addr.s_addr = htonl(ip);
  ai->ai_family = AF_INET; ai->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM; ai->ai_protocol = IPPROTO_TCP;
  ai->ai_addrlen = sizeof(sockaddr_in); ai->ai_addr = (sockaddr *)in;
  liveAi.insert(ai); W->liveAddrinfo++;
  *res = ai;
  yieldPoint();
  return 0;
}
void freeaddrinfo(struct addrinfo *ai) {
  if (liveAi.erase(ai)) { W->liveAddrinfo--; free(ai); return; }
  if (sim()) { foreignUses.push_back({curOp(), "freeaddrinfo", -1, "an address list that is not allocated"}); return; }
  real<void (*)(addrinfo *)>("freeaddrinfo")(ai);
}

// ---- time ----
static void simSleep(ns_t d) {
  enter();
  blockUntil([]() { return false; }, W->now + d);
}
unsigned sleep(unsigned sec) {
  if (!sim()) { timespec t{(time_t)sec, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
  Seam s; simSleep((ns_t)sec * SEC); return 0;
}
int usleep(useconds_t us) {
  if (!sim()) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
  Seam s; simSleep((ns_t)us * US); return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!sim()) return (int)syscall(SYS_nanosleep, a, b);
  Seam s; simSleep(a->tv_sec * SEC + a->tv_nsec); if (b) *b = {0, 0}; return 0;
}
int clock_nanosleep(clockid_t ck, int fl, const struct timespec *a, struct timespec *b) {
  if (!sim()) return (int)-syscall(SYS_clock_nanosleep, ck, fl, a, b);
  Seam s;
  ns_t v = a->tv_sec * SEC + a->tv_nsec;
  if (fl & TIMER_ABSTIME) v -= (ck == CLOCK_REALTIME ? (EPOCH0 + W->wallSkew) * SEC : 1000 * SEC) + W->now;
  simSleep(std::max<ns_t>(0, v)); return 0;
}
static bool simClock() { return W && W->active && me; }
int clock_gettime(clockid_t ck, struct timespec *ts) {
  if (!simClock()) return (int)syscall(SYS_clock_gettime, ck, ts);
  if (inLib) { Seam s; tick(1 * US); }
  ns_t v = W->now + ((ck == CLOCK_REALTIME || ck == CLOCK_REALTIME_COARSE) ? (EPOCH0 + W->wallSkew) * SEC : 1000 * SEC);
  ts->tv_sec = v / SEC; ts->tv_nsec = v % SEC; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!simClock()) return (int)syscall(SYS_gettimeofday, tv, tz);
  if (inLib) { Seam s; tick(1 * US); }
  ns_t v = W->now + (EPOCH0 + W->wallSkew) * SEC; tv->tv_sec = v / SEC; tv->tv_usec = v % SEC / US; return 0;
}
time_t time(time_t *t) {
  time_t v;
  if (!simClock()) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  else v = (time_t)(EPOCH0 + W->wallSkew + W->now / SEC);
  if (t) *t = v;
  return v;
}

// ---- files (attachments live below the run's scratch directory) ----
static bool scratchPath(const char *p) { return W && !W->scratch.empty() && !strncmp(p, W->scratch.c_str(), W->scratch.size()); }
static FILE *doOpen(const char *p, const char *m, const char *fn) {
  auto rf = real<FILE *(*)(const char *, const char *)>(fn);
  if (!sim() || !scratchPath(p)) return rf(p, m);
  Seam s; enter(); yieldPoint();
  auto it = W->fileFaults.find(p);
  if (it != W->fileFaults.end() && it->second.kind == F_disk_open_fail) { fired(F_disk_open_fail, fmt("errno %d", it->second.err)); errno = it->second.err; return nullptr; }
  FILE *f = rf(p, m);
  if (!f) { int e = errno; fired(F_disk_missing, p + W->scratch.size()); errno = e; return nullptr; }
  W->files[fileno(f)] = p;
  tr("fopen(%s) = fd", p + W->scratch.size());
  return f;
}
FILE *fopen(const char *p, const char *m) { return doOpen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return doOpen(p, m, "fopen64"); }
int fclose(FILE *f) {
  if (W && f) W->files.erase(fileno(f));
  return real<int (*)(FILE *)>("fclose")(f);
}
static int doOpenFd(int dir, const char *p, int fl, int mode) {
  if (!sim() || !scratchPath(p)) return (int)syscall(SYS_openat, dir, p, fl, mode);
  Seam s; enter(); yieldPoint();
  auto it = W->fileFaults.find(p);
  if (it != W->fileFaults.end() && it->second.kind == F_disk_open_fail) { fired(F_disk_open_fail, fmt("errno %d", it->second.err)); errno = it->second.err; return -1; }
  int fd = (int)syscall(SYS_openat, dir, p, fl, mode);
  if (fd >= 0) W->files[fd] = p; else { int e = errno; fired(F_disk_missing, p + W->scratch.size()); errno = e; }
  return fd;
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return doOpenFd(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return doOpenFd(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return doOpenFd(d, p, fl, m); }
static off64_t doSeek(int fd, off64_t o, int wh) {
  if (sim() && isFile(fd)) {
    Seam s; enter();
    auto it = W->fileFaults.find(W->files[fd]);
    if (it != W->fileFaults.end() && it->second.kind == F_disk_seek_fail && wh == SEEK_END) { fired(F_disk_seek_fail); errno = it->second.err; return -1; }
    return syscall(SYS_lseek, fd, o, wh);
  }
  return syscall(SYS_lseek, fd, o, wh);
}
off_t lseek(int fd, off_t o, int wh) noexcept { return doSeek(fd, o, wh); }
off64_t lseek64(int fd, off64_t o, int wh) noexcept { return doSeek(fd, o, wh); }

// ---- mutexes and one-time initialisation under the baton scheduler ----
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!sim() || !W->multi) return __real_pthread_mutex_lock(m);
  Seam s;
  int r = pthread_mutex_trylock(m);
  if (r != EBUSY) return r;
  tr("mutex wait");
  bool got = false;
  blockUntil([m, &got]() { if (!got && pthread_mutex_trylock(m) == 0) got = true; return got; });
  return 0;
}
#define RWLOCK(kind) \
int __real_pthread_rwlock_##kind##lock(pthread_rwlock_t *m); \
int __wrap_pthread_rwlock_##kind##lock(pthread_rwlock_t *m) { \
  if (!sim() || !W->multi) return __real_pthread_rwlock_##kind##lock(m); \
  Seam s; \
  int r = pthread_rwlock_try##kind##lock(m); \
  if (r != EBUSY) return r; \
  bool got = false; \
  blockUntil([m, &got]() { if (!got && pthread_rwlock_try##kind##lock(m) == 0) got = true; return got; }); \
  return 0; \
}
RWLOCK(rd) RWLOCK(wr)
int __real_pthread_once(pthread_once_t *o, void (*f)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
  if (me) me->noPreempt++;
  int r = __real_pthread_once(o, f);
  if (me) me->noPreempt--;
  return r;
}
int __real___cxa_guard_acquire(void *g);
void __real___cxa_guard_release(void *g);
void __real___cxa_guard_abort(void *g);
int __wrap___cxa_guard_acquire(void *g) { int r = __real___cxa_guard_acquire(g); if (r && me) me->noPreempt++; return r; }
void __wrap___cxa_guard_release(void *g) { __real___cxa_guard_release(g); if (me) me->noPreempt--; }
void __wrap___cxa_guard_abort(void *g) { __real___cxa_guard_abort(g); if (me) me->noPreempt--; }

// ---- OpenSSL construction failures ----
void *__real_SSL_CTX_new(const void *m);
void *__wrap_SSL_CTX_new(const void *m) {
  if (sim()) { Seam s; if (W->nf.ctxFail && CH.chance(W->nf.ctxFail) && takeTerminal(F_ctx_fail, "SSL_CTX_new")) return nullptr; }
  return __real_SSL_CTX_new(m);
}
void *__real_BIO_new_ssl_connect(void *c);
void *__wrap_BIO_new_ssl_connect(void *c) {
  if (sim()) { Seam s; if (W->nf.bioFail && CH.chance(W->nf.bioFail) && takeTerminal(F_bio_fail, "BIO_new_ssl_connect")) return nullptr; }
  return __real_BIO_new_ssl_connect(c);
}
}  // extern "C"
