#include "server.h"
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/x509v3.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>

const char *stepNames[] = {"greeting", "ehlo", "starttls", "tls", "ehlo2", "auth", "auth-user", "auth-pass", "mail", "rcpt", "data", "content", "end-of-data", "quit", "other"};
const char *certNames[] = {"valid", "self-signed", "expired", "untrusted-ca", "wrong-host", "not-yet-valid", "self-signed-expired", "self-signed-wrong-host", "untrusted-root-in-chain", "ip-san", "look-alike-name", "name-only-in-cn", "issued-by-non-ca", "intermediate", "intermediate-not-sent", "expired-intermediate", "mixed-case-name", "common-name-only", "client-purpose", "bad-signature"};
History H;

std::string upper(std::string s) { for (auto &c : s) c = (char)toupper((unsigned char)c); return s; }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64(const std::string &s) {
  std::string o; size_t i = 0;
  for (; i + 2 < s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2]; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += B64[v & 63]; }
  if (i + 1 == s.size()) { uint32_t v = (uint8_t)s[i] << 16; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += "=="; }
  else if (i + 2 == s.size()) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += "="; }
  return o;
}
bool unb64(const std::string &in, std::string *out) {
  out->clear(); uint32_t v = 0; int n = 0, pad = 0;
  for (char ch : in) {
    if (ch == '\r' || ch == '\n') continue;
    if (ch == '=') { pad++; v <<= 6; n++; }
    else { if (pad) return false; const char *p = strchr(B64, ch); if (!p || !ch) return false; v = v << 6 | (uint32_t)(p - B64); n++; }
    if (n == 4) { *out += (char)(v >> 16); if (pad < 2) *out += (char)(v >> 8); if (pad < 1) *out += (char)v; if (pad > 2) return false; v = 0; n = 0; }
  }
  return n == 0;
}

// ---- certificates (generated in memory at start-up; simulated wall clock) ----
static EVP_PKEY *caKey, *badCaKey, *leafKey;
static X509 *caCert, *badCaCert, *leaf[C_COUNT];
static void addExt(X509 *x, X509 *issuer, int nid, const char *v) {
  X509V3_CTX cx; X509V3_set_ctx_nodb(&cx); X509V3_set_ctx(&cx, issuer, x, nullptr, nullptr, 0);
  X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &cx, nid, v); X509_add_ext(x, e, -1); X509_EXTENSION_free(e);
}
static X509 *mk(const char *cn, EVP_PKEY *key, X509 *issuer, EVP_PKEY *sign, bool ca, int64_t from, int64_t to, const char *san, long serial, const char *eku = nullptr) {
  X509 *x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
  ASN1_TIME_set(X509_getm_notBefore(x), EPOCH0 + from); ASN1_TIME_set(X509_getm_notAfter(x), EPOCH0 + to);
  X509_set_pubkey(x, key);
  X509_NAME *n = X509_get_subject_name(x);
  X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char *)cn, -1, -1, 0);
  X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : n);
  if (ca) { addExt(x, issuer ? issuer : x, NID_basic_constraints, "critical,CA:TRUE"); addExt(x, issuer ? issuer : x, NID_key_usage, "critical,keyCertSign,cRLSign"); }
  if (san) addExt(x, issuer ? issuer : x, NID_subject_alt_name, san);
  if (eku) addExt(x, issuer ? issuer : x, NID_ext_key_usage, eku);
  X509_sign(x, sign, EVP_sha256());
  return x;
}
static SSL_CTX *srvCtx[C_COUNT];
void certInit(const std::string &caPath) {
  const int64_t Y = 365 * 86400ll;
  caKey = EVP_EC_gen("P-256"); badCaKey = EVP_EC_gen("P-256"); leafKey = EVP_EC_gen("P-256");
  caCert = mk("Sim Trusted CA", caKey, nullptr, caKey, true, -10 * Y, 20 * Y, nullptr, 1);
  badCaCert = mk("Sim Untrusted CA", badCaKey, nullptr, badCaKey, true, -10 * Y, 20 * Y, nullptr, 2);
  const char *san = "DNS:mail1.sim,DNS:mail2.sim,DNS:mail3.sim,DNS:mail4.sim";
  leaf[C_VALID] = mk("mail1.sim", leafKey, caCert, caKey, false, -Y, 2 * Y, san, 10);
  leaf[C_SELFSIGNED] = mk("mail1.sim", leafKey, nullptr, leafKey, false, -Y, 2 * Y, san, 11);
  leaf[C_EXPIRED] = mk("mail1.sim", leafKey, caCert, caKey, false, -3 * Y, -Y, san, 12);
  leaf[C_UNTRUSTED] = mk("mail1.sim", leafKey, badCaCert, badCaKey, false, -Y, 2 * Y, san, 13);
  leaf[C_WRONGHOST] = mk("other.example", leafKey, caCert, caKey, false, -Y, 2 * Y, "DNS:other.example,DNS:*.example", 14);
  leaf[C_NOTYET] = mk("mail1.sim", leafKey, caCert, caKey, false, Y, 3 * Y, san, 15);
  leaf[C_SELF_EXPIRED] = mk("mail1.sim", leafKey, nullptr, leafKey, false, -3 * Y, -Y, san, 16);
  leaf[C_SELF_WRONGHOST] = mk("other.example", leafKey, nullptr, leafKey, false, -Y, 2 * Y, "DNS:other.example", 17);
  leaf[C_ROOT_IN_CHAIN] = mk("mail1.sim", leafKey, badCaCert, badCaKey, false, -Y, 2 * Y, san, 18);
  leaf[C_IPSAN] = mk("mail1.sim", leafKey, caCert, caKey, false, -Y, 2 * Y, "DNS:mail1.sim,IP:10.0.0.1,IP:10.0.0.2,IP:10.0.0.3,IP:10.0.0.4", 19);
  leaf[C_LOOKALIKE] = mk("mail1.sim.attacker.example", leafKey, caCert, caKey, false, -Y, 2 * Y, "DNS:mail1.sim.attacker.example,DNS:mail2.sim.attacker.example,DNS:mail3.sim.attacker.example,DNS:mail4.sim.attacker.example,DNS:xmail1.sim,DNS:xmail2.sim,DNS:xmail3.sim,DNS:xmail4.sim,DNS:mail,DNS:sim,DNS:*.mail1.sim,DNS:10.0.0.10", 20);
  leaf[C_CN_ONLY_MATCH] = mk("mail1.sim", leafKey, caCert, caKey, false, -Y, 2 * Y, "DNS:other.example", 21);   // the common name does not count next to alternative names
  EVP_PKEY *midKey = EVP_EC_gen("P-256");
  X509 *mid = mk("some.customer.example", midKey, caCert, caKey, false, -Y, 2 * Y, "DNS:some.customer.example", 23);   // a customer of the authority, not an authority itself
  leaf[C_NONCA] = mk("mail1.sim", leafKey, mid, midKey, false, -Y, 2 * Y, san, 22);
  EVP_PKEY *interKey = EVP_EC_gen("P-256");
  X509 *inter = mk("Sim Intermediate CA", interKey, caCert, caKey, true, -5 * Y, 10 * Y, nullptr, 24);
  X509 *oldInter = mk("Sim Former CA", interKey, caCert, caKey, true, -5 * Y, -Y, nullptr, 25);
  leaf[C_INTERMEDIATE] = mk("mail1.sim", leafKey, inter, interKey, false, -Y, 2 * Y, san, 26);
  leaf[C_NO_INTERMEDIATE] = leaf[C_INTERMEDIATE];
  leaf[C_EXPIRED_INTERMEDIATE] = mk("mail1.sim", leafKey, oldInter, interKey, false, -Y, 2 * Y, san, 27);
  leaf[C_MIXED_CASE] = mk("Mail1.SIM", leafKey, caCert, caKey, false, -Y, 2 * Y, "DNS:other.example,DNS:Mail1.SIM,DNS:MAIL2.sim,DNS:mAil3.sIm,DNS:Mail4.Sim", 28);
  leaf[C_CN_ONLY] = mk("mail1.sim", leafKey, caCert, caKey, false, -Y, 2 * Y, nullptr, 29);
  leaf[C_CLIENT_ONLY] = mk("mail1.sim", leafKey, caCert, caKey, false, -Y, 2 * Y, san, 30, "clientAuth");
  leaf[C_BAD_SIGNATURE] = mk("mail1.sim", leafKey, caCert, badCaKey, false, -Y, 2 * Y, san, 31);   // names the trusted authority, signed by another key
  FILE *f = fopen(caPath.c_str(), "w"); if (!f) { perror(caPath.c_str()); exit(3); }
  PEM_write_X509(f, caCert); fclose(f);
  for (int i = 0; i < C_COUNT; i++) {
    SSL_CTX *x = srvCtx[i] = SSL_CTX_new(TLS_server_method());
    SSL_CTX_use_certificate(x, leaf[i]); SSL_CTX_use_PrivateKey(x, leafKey);
    if (i == C_ROOT_IN_CHAIN) SSL_CTX_add1_chain_cert(x, badCaCert);
    else if (i == C_NONCA) SSL_CTX_add1_chain_cert(x, mid);
    else if (i == C_INTERMEDIATE) SSL_CTX_add1_chain_cert(x, inter);
    else if (i == C_EXPIRED_INTERMEDIATE) SSL_CTX_add1_chain_cert(x, oldInter);
    else SSL_CTX_set_mode(x, SSL_MODE_NO_AUTO_CHAIN);
    SSL_CTX_set_session_cache_mode(x, SSL_SESS_CACHE_OFF);
  }
}

Server *addServer(const std::string &host, uint32_t ip, int port) {
  auto *s = new Server; s->id = (int)W->servers.size(); s->host = host; s->ip = ip; s->port = port;
  W->servers.push_back(s);
  return s;
}

// ---- helpers ----
// The server's OpenSSL calls neither see nor change the errors that the client's left in this thread.
struct ErrGuard {
  struct E { unsigned long e; int line, flags; std::string data, file, func; };
  std::vector<E> held;
  ErrGuard() { E x; const char *d, *f, *u; while ((x.e = ERR_get_error_all(&f, &x.line, &u, &d, &x.flags))) { x.file = f ? f : ""; x.func = u ? u : ""; x.data = x.flags & ERR_TXT_STRING && d ? d : ""; held.push_back(x); } }
  ~ErrGuard() {
    ERR_clear_error();
    for (auto &x : held) { ERR_new(); ERR_set_debug(x.file.c_str(), x.line, x.func.c_str()); if (x.data.empty()) ERR_set_error(ERR_GET_LIB(x.e), ERR_GET_REASON(x.e), nullptr); else ERR_set_error(ERR_GET_LIB(x.e), ERR_GET_REASON(x.e), "%s", x.data.c_str()); }
  }
};
static void viol(Session *s, const char *prop, const std::string &kind, const std::string &msg, int opId) {
  tr("proto-violation %s %s", kind.c_str(), msg.c_str());
  H.viols.push_back({prop, kind, fmt("conn%d: ", s->c->id) + msg, opId});
}
static std::vector<std::pair<size_t, ns_t>> makePlan(Session *s, size_t len, int opId, size_t interesting) {
  std::vector<std::pair<size_t, ns_t>> p;
  const SrvCfg &g = s->cfg;
  ns_t total = 0;
  if (g.delay && g.maxDelay && CH.chance(g.delay)) {
    uint32_t mx = (uint32_t)(g.maxDelay / MS);
    switch (CH.pick({3, 2, 2})) { case 0: total = CH.draw(std::min(mx, 50u) + 1); break; case 1: total = CH.draw(mx + 1); break; default: total = mx - CH.draw(std::min(mx, 3u) + 1); }
    if (total < 0) total = 0;
    if (s->tlsHandshake) total /= 3;       // several flights share the budget of one step
    total *= MS;
    if (total) fired(F_reply_delay, fmt("%lld ms", (long long)(total / MS)));
    if (Op *o = op(opId)) o->injected += total;
  }
  ns_t lat = 1 * MS;
  if (g.bytewise && len <= 600 && CH.chance(g.bytewise)) {
    fired(F_seg_bytewise);
    for (size_t i = 0; i < len; i++) p.push_back({1, (i == 0 ? lat : 0) + total / (ns_t)len});
    if (!p.empty()) p[0].second += total - total / (ns_t)len * (ns_t)len;
    return p;
  }
  if (g.split && len > 1 && CH.chance(g.split)) {
    fired(F_seg_split);
    uint32_t k = 1 + CH.draw(std::min<uint32_t>(4, (uint32_t)len - 1));
    std::set<size_t> cuts;
    for (uint32_t i = 0; i < k; i++) {
      size_t c;
      switch (CH.pick({3, 2, 2, 1, 1})) {
        case 0: c = 1 + CH.draw((uint32_t)len - 1); break;
        case 1: c = len - 1; break;                                  // before the final LF
        case 2: c = interesting && interesting < len ? interesting : std::min<size_t>(3, len - 1); break;
        case 3: c = std::min<size_t>(len - 1, 1023 + CH.draw(3)); break;
        default: c = std::min<size_t>(4, len - 1);
      }
      cuts.insert(c);
    }
    size_t prev = 0; std::vector<size_t> sz;
    for (size_t c : cuts) { sz.push_back(c - prev); prev = c; }
    sz.push_back(len - prev);
    for (size_t i = 0; i < sz.size(); i++) p.push_back({sz[i], (i == 0 ? lat : (ns_t)CH.draw(3) * 300 * US) + total / (ns_t)sz.size()});
    return p;
  }
  p.push_back({len, lat + total});
  return p;
}
static void flushTls(Session *s, int opId) {
  BIO *w = SSL_get_wbio(s->ssl);
  std::string d; char b[4096]; int n;
  while ((n = BIO_read(w, b, sizeof b)) > 0) d.append(b, (size_t)n);
  if (!d.empty()) { W->hash = fnv(W->hash, d.data(), d.size()); netSend(s->c, d, makePlan(s, d.size(), opId, 5)); }
}
static void rawSend(Session *s, const std::string &d, int opId, size_t interesting, std::vector<std::pair<size_t, ns_t>> *plan = nullptr) {
  if (s->tls) {
    ErrGuard g;
    size_t off = 0;
    while (off < d.size()) {
      size_t n = d.size() - off;
      if (n > 1 && s->cfg.tlsFrag && CH.chance(s->cfg.tlsFrag)) { n = 1 + CH.draw((uint32_t)n - 1); fired(F_tls_frag); }
      if (n > 16000) n = 16000;
      SSL_write(s->ssl, d.data() + off, (int)n);
      off += n;
    }
    if (plan) {
      BIO *w = SSL_get_wbio(s->ssl); std::string o; char b[4096]; int n;
      while ((n = BIO_read(w, b, sizeof b)) > 0) o.append(b, (size_t)n);
      netSend(s->c, o, *plan);
    } else flushTls(s, opId);
  } else {
    netSend(s->c, d, plan ? *plan : makePlan(s, d.size(), opId, interesting));
  }
}
static void closeSess(Session *s, bool rst, bool notify, ns_t delay) {
  if (s->closed) return;
  s->closed = true;
  if (s->tls && s->ssl && notify && !rst) { ErrGuard g; SSL_shutdown(s->ssl); flushTls(s, 0); }
  else if (s->tls && !rst) fired(F_tls_nonotify);
  if (rst) netRst(s->c, delay); else netFin(s->c, delay);
  tr("server%d conn%d closes%s", s->srv->id, s->c->id, rst ? " (reset)" : "");
}
void dropSession(Session *s, bool rst, bool notice) {
  if (s->closed || s->c->srvClosed) return;
  if (notice) {
    std::string t = "421 4.4.2 timeout, closing\r\n";
    H.ev.push_back({W->now, s->srv->id, s->c->id, s->idx, 'S', s->tls, 0, 0, S_OTHER, 421, t, true, true, (int)H.ev.size()});
    rawSend(s, t, 0, 0);
  }
  fired(F_drop_session);
  closeSess(s, rst, true, 1 * MS);
}
static const int rejects[S_COUNT][8] = {
  /*greet*/ {554, 421, 450, 521, 500, 599, 400, 554},
  /*ehlo*/ {500, 502, 504, 550, 421, 452, 554, 501},
  /*starttls*/ {454, 501, 502, 530, 421, 554, 503, 450},
  /*tls*/ {0}, /*ehlo2*/ {500, 502, 504, 550, 421, 452, 554, 501},
  /*auth*/ {535, 534, 454, 504, 538, 530, 432, 421},
  /*user*/ {535, 501, 454, 500, 421, 535, 534, 538},
  /*pass*/ {535, 534, 454, 501, 538, 421, 535, 550},
  /*mail*/ {550, 451, 452, 530, 552, 421, 553, 555},
  /*rcpt*/ {550, 551, 553, 450, 451, 452, 421, 554},
  /*data*/ {554, 451, 503, 421, 452, 550, 500, 599},
  /*content*/ {0},
  /*end*/ {554, 552, 451, 452, 550, 421, 450, 400},
  /*quit*/ {421, 500, 554, 421, 500, 554, 421, 500},
  /*other*/ {500, 502, 421, 550, 500, 502, 421, 550}};

// codes that are no error codes but do not accept the step either
static const int oddCodes[S_COUNT][4] = {
  /*greet*/ {250, 221, 354, 200}, /*ehlo*/ {220, 354, 251, 235}, /*starttls*/ {250, 221, 334, 354}, /*tls*/ {0}, /*ehlo2*/ {220, 354, 251, 235},
  /*auth*/ {250, 220, 354, 221}, /*user*/ {250, 235, 354, 220}, /*pass*/ {250, 334, 354, 220}, /*mail*/ {354, 220, 235, 334}, /*rcpt*/ {354, 220, 334, 221},
  /*data*/ {250, 334, 220, 355}, /*content*/ {0}, /*end*/ {354, 220, 334, 300}, /*quit*/ {250, 220, 354, 200}, /*other*/ {250, 354, 220, 334}};
static Decision decide(Session *s, int step, int opId) {
  Decision d;
  const SrvCfg &g = s->cfg;
  if (!(g.stepMask >> step & 1)) return d;
  unsigned sum = g.faultSum();
  if (!sum || !W->nf.terminal || W->terminalFired >= W->terminalBudget) return d;
  uint32_t raw = CH.draw(1000);
  unsigned v = 999 - raw;   // raw 0 -> 999 -> usually no fault
  if (v >= sum) return d;
  struct { unsigned w; Fault f; } tab[] = {{g.reject, F_reject}, {g.silent, F_silent}, {g.partial, F_partial_silent}, {g.trickle, F_trickle}, {g.closeBefore, F_close_before},
    {g.closeMid, F_close_mid}, {g.closeAfter, F_close_after}, {g.rstBefore, F_rst_before}, {g.rstMid, F_rst_mid}, {g.rstAfter, F_rst_after}, {g.garbage, F_garbage},
    {g.oversize, F_oversize}, {g.unsolicited, F_unsolicited}, {g.stallRead, F_peer_stall_read}};
  for (auto &t : tab) { if (v < t.w) { d.kind = t.f; break; } v -= t.w; }
  if (d.kind < 0) return d;
  if (d.kind == F_reject) { d.code = rejects[step][CH.draw(8)]; if (CH.draw(6) == 5) d.code = oddCodes[step][CH.draw(4)]; if (!d.code) d.kind = -1; }
  if (d.kind < 0) return d;
  if (!takeTerminal((Fault)d.kind, fmt("%s code %d", stepNames[step], d.code))) { d.kind = -1; return d; }
  if (Op *o = op(opId)) if (o->id != curOp()) o->faultsHit.push_back(d.kind);
  H.faults.push_back({opId, step, faultNames[d.kind], d.code, s->c->id, ""});
  return d;
}
static bool blocksEffect(int kind) {   // does the fault keep the server from performing the step?
  return kind == F_reject || kind == F_garbage || kind == F_oversize;
}
static std::string garbageText() {
  static const char *g[] = {"000 ok\r\n", "0ab fine\r\n", "hello\r\n", "\r\n", "25\r\n", "2\r\n", "<html>250 ok</html>\r\n", "1e9 ok\r\n", "-1 bad\r\n",
    "abc250 ok\r\n", "\x80\x81\x82\r\n", "00\r\n", "25 0 ok\r\n", "000-first\r\n000 second\r\n", "+00 ok\r\n", "\x16\x03\x01\x02\r\n", "0 0 0\r\n", "-00 ok\r\n", "two fifty\r\n", "?\r\n"};
  uint32_t i = CH.draw(22);
  if (i == 20) return std::string("\0\0\0 ok\r\n", 8);
  if (i == 21) return std::string("2\0\0 ok\r\n", 8);
  return g[i];
}
// Send the reply for one step, applying style and the decided fault.
static void reply(Session *s, int step, int opId, int code, std::vector<std::string> lines, Decision d, bool ehloStyle = false) {
  const SrvCfg &g = s->cfg;
  if (d.kind == F_reject) { code = d.code; lines = {fmt("5.0.0 refused at %s", stepNames[step])}; ehloStyle = false; }
  if (!ehloStyle) {
    if (g.bigtotal && CH.chance(g.bigtotal)) {
      fired(F_reply_bigtotal); uint32_t n = 5 + CH.draw(40);
      for (uint32_t i = 0; i < n; i++) lines.insert(lines.begin(), fmt("line %u ", i) + std::string(20 + CH.draw(80), 'x'));
    } else if (g.multiline && CH.chance(g.multiline)) {
      fired(F_reply_multiline); uint32_t n = 1 + CH.draw(4);
      for (uint32_t i = 0; i < n; i++) lines.insert(lines.begin(), fmt("more %u", i));
    }
    if (g.longline && CH.chance(g.longline)) {
      fired(F_reply_longline);
      static const size_t L[] = {507, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 2043, 2044, 2045, 4090};
      size_t want = L[CH.draw(12)];
      std::string &l = lines[CH.draw((uint32_t)lines.size())];
      if (l.size() + 6 < want) l += std::string(want - l.size() - 6, 'y');
    }
    if (g.codeOnly && lines.size() == 1 && CH.chance(g.codeOnly)) lines[0] = "";
  }
  if (step == g.hugeAt && d.kind != F_reject) { fired(F_reply_bigtotal); lines.insert(lines.begin() + (ehloStyle && lines.size() > 1 ? 1 : 0), g.hugeLines.begin(), g.hugeLines.end()); }
  std::string text;
  for (size_t i = 0; i < lines.size(); i++) {
    bool last = i + 1 == lines.size();
    text += std::to_string(code) + (last ? (lines[i].empty() ? "" : " ") : "-") + lines[i] + "\r\n";
  }
  size_t lastLine = text.size() - 2; { size_t p = text.rfind("\r\n", text.size() - 3); lastLine = p == std::string::npos ? 3 : p + 2; }
  s->lastReplyOdd = d.kind >= 0 && d.kind != F_reject;
  auto record = [&](const std::string &t, int cd, bool complete, bool uns = false) {
    H.ev.push_back({W->now, s->srv->id, s->c->id, s->idx, 'S', s->tls, opId, opId, step, cd, t, complete, uns, (int)H.ev.size()});
    tr("S%d conn%d%s: %s", s->srv->id, s->c->id, s->tls ? " tls" : "", esc(t, 90).c_str());
    shapeAdd(fmt("S%d:%d", step, cd));
  };
  switch (d.kind) {
    case F_silent: s->lastReplyEnd = UINT64_MAX; s->silentMode = true; record("", 0, false); return;
    case F_peer_stall_read: s->lastReplyEnd = UINT64_MAX; s->silentMode = true; s->c->srvStall = true; s->c->sndCap = std::min<size_t>(s->c->sndCap, 4096); record("", 0, false); return;
    case F_close_before: s->lastReplyEnd = UINT64_MAX; record("", 0, false); closeSess(s, false, CH.draw(2) == 0, 1 * MS); return;
    case F_rst_before: s->lastReplyEnd = UINT64_MAX; record("", 0, false); closeSess(s, true, false, 1 * MS); return;
    case F_partial_silent: case F_close_mid: case F_rst_mid: {
      size_t n = CH.draw((uint32_t)text.size());
      std::string part = text.substr(0, n);
      record(part, 0, false);
      if (s->tls && !part.empty() && CH.draw(3) == 2) {   // the record itself is cut off
        ErrGuard g; SSL_write(s->ssl, part.data(), (int)part.size());
        BIO *w = SSL_get_wbio(s->ssl); std::string o; char b[4096]; int k;
        while ((k = BIO_read(w, b, sizeof b)) > 0) o.append(b, (size_t)k);
        if (!o.empty()) { o.resize(CH.draw((uint32_t)o.size())); fired(F_tls_record_cut); }
        if (!o.empty()) netSend(s->c, o, makePlan(s, o.size(), opId, 0));
      } else if (!part.empty()) rawSend(s, part, opId, 0);
      s->lastReplyEnd = UINT64_MAX;
      if (d.kind == F_partial_silent) s->silentMode = true; else closeSess(s, d.kind == F_rst_mid, CH.draw(2) == 0, 2 * MS);
      return;
    }
    case F_trickle: {   // one byte at a time, forever slower than any timeout
      // a very long multi-line reply, one byte every dt
      std::string t;
      for (int i = 0; i < 12; i++) t += std::to_string(code) + "-still working on it, please wait a little longer\r\n";
      ns_t dt = (ns_t)(200 + 100 * CH.draw(30)) * MS;
      if (s->tls && CH.draw(2)) {   // one record in pieces: nothing can be read until the last one
        record(t, 0, false);
        std::vector<std::pair<size_t, ns_t>> plan;
        for (size_t i = 0; i < t.size(); i++) plan.push_back({1 + CH.draw(4), dt});
        fired(F_tls_record_pieces);
        rawSend(s, t, opId, 0, &plan);
      } else if (s->tls) {
        record(t.substr(0, 60), 0, false);
        for (int i = 0; i < 60; i++) {
          std::vector<std::pair<size_t, ns_t>> plan{{SIZE_MAX, dt}};
          std::string one = t.substr((size_t)i, 1);
          rawSend(s, one, opId, 0, &plan);
        }
      } else {
        record(t, 0, false);
        std::vector<std::pair<size_t, ns_t>> plan;
        for (size_t i = 0; i < t.size(); i++) plan.push_back({1, dt});
        netSend(s->c, t, plan);
      }
      s->lastReplyEnd = UINT64_MAX; s->silentMode = true; return;
    }
    case F_garbage: { std::string t = garbageText(); record(t, -1, true); rawSend(s, t, opId, 0); s->lastReplyEnd = s->c->s2cTotal; return; }
    case F_oversize: {
      static const size_t L[] = {1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 8192, 20000};
      std::string t = std::string(CH.draw(2) ? "5" : "x") + std::string(L[CH.draw(11)] - 1, CH.draw(2) ? '5' : 'z');
      if (CH.draw(2)) t += "\r\n";
      record(t, -1, true); rawSend(s, t, opId, 0); s->lastReplyEnd = s->c->s2cTotal; return;
    }
    default: break;
  }
  if (d.kind == F_unsolicited) {
    std::string extra = CH.draw(2) || step == S_DATA || step == S_END ? "421 4.3.2 shutting down\r\n" : "250 2.0.0 bonus\r\n";
    record(text, code, true); record(extra, 0, true, true);
    rawSend(s, text + extra, opId, text.size());
    s->lastReplyEnd = s->c->s2cTotal;
    closeSess(s, false, true, 1 * MS);
    return;
  }
  record(text, code, true);
  rawSend(s, text, opId, lastLine);
  s->lastReplyEnd = s->c->s2cTotal;
  if (d.kind == F_close_after) closeSess(s, false, CH.draw(2) == 0, 1 * MS);
  if (d.kind == F_rst_after) closeSess(s, true, false, 3 * MS);
}

static std::vector<std::string> capLines(Session *s) {
  const SrvCfg &g = s->cfg;
  std::vector<std::string> caps{"SIZE 35882577", "8BITMIME", "PIPELINING", "ENHANCEDSTATUSCODES", "HELP"};
  auto kase = [&](std::string x) { if (g.lowerCaps) for (size_t i = 0; i < x.size(); i++) if (CH.draw(2)) x[i] = (char)tolower(x[i]); return x; };
  if (g.offerTls && !s->tls) { caps.push_back(kase("STARTTLS")); s->offeredTlsSeen = true; }
  if (g.authMask && (s->tls || g.authOverPlain)) {
    std::vector<std::string> m;
    if (g.authMask & M_PLAIN) m.push_back("PLAIN");
    if (g.authMask & M_LOGIN) m.push_back("LOGIN");
    if (g.authMask & M_XOAUTH2) m.push_back("XOAUTH2");
    if (g.authExtra) for (auto *x : {"CRAM-MD5", "NTLM", "PLAIN-CLIENTTOKEN", "OAUTHBEARER", "XOAUTH", "PLAINX", "XLOGIN"}) if (CH.draw(2)) m.push_back(x);
    if (g.capStyle) for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[CH.draw((uint32_t)i)]);
    // the offer may stand on one line, be spread over two, or be repeated in the obsolete form
    size_t cut = g.authSplit == 1 ? CH.draw((uint32_t)m.size()) : m.size();
    std::string l = kase("AUTH"), l2 = kase("AUTH"); for (size_t i = 0; i < m.size(); i++) (i < cut || !cut ? l : l2) += " " + kase(m[i]);
    if (g.authSplit == 2) { std::string old = l; old[4] = '='; caps.push_back(old); }
    if (g.authSplit == 3) caps.push_back("AUTHINFO PLAIN LOGIN XOAUTH2");
    caps.push_back(l);
    if (l2.size() > 4) caps.push_back(l2);
  } else if (g.authExtra && (s->tls || g.authOverPlain)) caps.push_back(CH.draw(2) ? "AUTH CRAM-MD5 NTLM" : "AUTH PLAIN-CLIENTTOKEN XLOGIN OAUTHBEARER XOAUTH");
  else if (g.authSplit == 3 && (s->tls || g.authOverPlain)) caps.push_back("AUTHINFO PLAIN LOGIN XOAUTH2");
  if (g.capStyle) {
    uint32_t drop = CH.draw(6);   // drop some of the decorative ones
    for (uint32_t i = 0; i < drop; i++) { size_t k = CH.draw((uint32_t)caps.size()); std::string u = upper(caps[k]); if (u.compare(0, 4, "AUTH") && u != "STARTTLS") caps.erase(caps.begin() + (long)k); }
    for (size_t i = caps.size(); i > 1; i--) std::swap(caps[i - 1], caps[CH.draw((uint32_t)i)]);
    if (g.bigtotal && CH.chance(g.bigtotal)) { fired(F_reply_bigtotal); uint32_t n = 10 + CH.draw(40); for (uint32_t i = 0; i < n; i++) caps.insert(caps.begin() + CH.draw((uint32_t)caps.size() + 1), fmt("X-EXT%u ", i) + std::string(CH.draw(60), 'p')); }
    if (g.longline && CH.chance(g.longline)) { fired(F_reply_longline); caps.insert(caps.begin() + CH.draw((uint32_t)caps.size() + 1), "X-LONG " + std::string(900 + CH.draw(300), 'q')); }
  }
  std::string u; for (auto &c : caps) u += c.substr(0, 9) + ",";
  caps.insert(caps.begin(), g.authName ? (CH.draw(2) ? "authsmtp.sim Hello plain login" : "starttls.sim Hello") : s->srv->host + " greets you");
  return caps;
}

static void greet(Session *s) {
  Decision d = decide(s, S_GREET, s->c->opCreated);
  reply(s, S_GREET, s->c->opCreated, 220, {s->srv->host + " ESMTP sim"}, d);
}

void Server::onAccept(Conn *c) {
  auto s = std::make_unique<Session>();
  s->srv = this; s->c = c; s->idx = (int)sessions.size(); s->cfg = cfg; s->lastOp = c->opCreated;
  c->srvSess = s->idx;
  sessions.push_back(std::move(s));
  Session *p = sessions.back().get();
  if (W->nf.smallSnd && CH.chance(W->nf.smallSnd)) { static const size_t k[] = {16, 100, 511, 512, 513, 1460, 2048, 4096}; c->sndCap = k[CH.draw(8)]; fired(F_sndbuf_small, fmt("%zu", c->sndCap)); }
  if (W->nf.slowDrain && CH.chance(W->nf.slowDrain)) { c->slowDrain = (1 + CH.draw(10)) * MS; fired(F_slow_drain); }
  c->wallSkewAtAccept = W->wallSkew;
  if (onSession) onSession(this, p);
  tr("server%d accepts conn%d", id, c->id);
  if (p->cfg.implicitTls) { p->tlsHandshake = true; c->oneDeadline = true; }
  else greet(p);
}
static Session *find(Server *v, Conn *c) { return c->srvSess >= 0 ? v->sessions[(size_t)c->srvSess].get() : nullptr; }
void Server::onClose(Conn *c, bool rst) {
  Session *s = find(this, c); if (!s) return;
  s->clientClosed = true; if (rst) s->rstClosed = true;
  tr("server%d: client closed conn%d", id, c->id);
  if (!s->closed) { s->closed = true; netFin(c, 1 * MS); }
}

static void finishAuth(Session *s, int step, int opId, const std::string &mech, const std::string &user, const std::string &pass, bool xo) {
  bool offered = (mech == "PLAIN" && s->cfg.authMask & M_PLAIN) || (mech == "LOGIN" && s->cfg.authMask & M_LOGIN) || (mech == "XOAUTH2" && s->cfg.authMask & M_XOAUTH2);
  if (!s->tls && !s->cfg.authOverPlain) offered = false;
  bool ok = offered && s->srv->users.count(user) && s->srv->users[user] == pass;
  Decision d = decide(s, step, opId);
  AuthTry a{s->c->id, opId, mech, user, pass, s->tls, offered, false, 0};
  s->phase = Session::Cmd;
  if (!offered) { a.code = 504; H.auths.push_back(a); reply(s, step, opId, 504, {"5.5.4 mechanism not offered"}, d); return; }
  if (!ok) {
    a.code = 535; H.auths.push_back(a);
    if (xo && CH.draw(2) && d.kind < 0) { s->phase = Session::AuthXoauthCont; reply(s, step, opId, 334, {"eyJzdGF0dXMiOiI0MDAifQ=="}, d); return; }
    reply(s, step, opId, 535, {"5.7.8 bad credentials"}, d); return;
  }
  if (!blocksEffect(d.kind)) { s->authed = true; s->authUser = user; a.accepted = true; a.code = 235; } else a.code = d.kind == F_reject ? d.code : -1;
  H.auths.push_back(a);
  reply(s, step, opId, 235, {"2.7.0 accepted"}, d);
}

static void resetTx(Session *s) { s->tx = false; s->from.clear(); s->rcpts.clear(); s->opMail = 0; }

static void command(Session *s, const std::string &line, SegMeta m, int opEnd) {
  std::string u = upper(line);
  std::string verb = u.substr(0, u.find(' '));
  int opId = opEnd;
  if (!s->tls) s->plainIn += line + "\n"; else { s->appLinesTls++; }
  bool isQuit = verb == "QUIT";
  auto log = [&](int step) {
    H.ev.push_back({W->now, s->srv->id, s->c->id, s->idx, 'C', s->tls, m.op, opEnd, step, 0, line, true, false, (int)H.ev.size()});
    tr("C conn%d%s: %s", s->c->id, s->tls ? " tls" : "", esc(line, 90).c_str());
    shapeAdd(fmt("C%d", step));
  };
  if (!isQuit && m.consumed < s->lastReplyEnd && !s->silentMode)
    viol(s, "C05", "lockstep", fmt("\"%s\" was sent before the complete reply to the previous command had been read", esc(line, 60).c_str()), opId);
  if (!isQuit && s->silentMode)
    viol(s, "C05", "lockstep", fmt("\"%s\" was sent although the previous command was never answered", esc(line, 60).c_str()), opId);
  if (s->phase == Session::AuthUser && !isQuit) {
    log(S_AUTHUSER); std::string v; bool ok = unb64(line, &v);
    if (!ok) { s->phase = Session::Cmd; viol(s, "C05", "auth-encoding", "user name reply is not base64", opId); reply(s, S_AUTHUSER, opId, 501, {"bad base64"}, Decision()); return; }
    s->loginUser = v;
    Decision d = decide(s, S_AUTHUSER, opId);
    if (!blocksEffect(d.kind)) s->phase = Session::AuthPass; else s->phase = Session::Cmd;
    reply(s, S_AUTHUSER, opId, 334, {"UGFzc3dvcmQ6"}, d); return;
  }
  if (s->phase == Session::AuthPass && !isQuit) {
    log(S_AUTHPASS); std::string v;
    if (!unb64(line, &v)) { s->phase = Session::Cmd; viol(s, "C05", "auth-encoding", "password reply is not base64", opId); reply(s, S_AUTHPASS, opId, 501, {"bad base64"}, Decision()); return; }
    finishAuth(s, S_AUTHPASS, opId, "LOGIN", s->loginUser, v, false); return;
  }
  if ((s->phase == Session::AuthPlainCont || s->phase == Session::AuthXoauthCont) && !isQuit) {
    log(S_AUTH);
    bool xo = s->phase == Session::AuthXoauthCont;
    s->phase = Session::Cmd;
    if (xo && s->lastMech == "XOAUTH2-FAILED") { reply(s, S_AUTH, opId, 535, {"5.7.8 bad credentials"}, Decision()); return; }
    std::string v; unb64(line, &v); size_t z = v.find('\0'), z2 = z == std::string::npos ? z : v.find('\0', z + 1);
    if (z2 == std::string::npos) { reply(s, S_AUTH, opId, 501, {"bad response"}, Decision()); return; }
    finishAuth(s, S_AUTH, opId, "PLAIN", v.substr(z + 1, z2 - z - 1), v.substr(z2 + 1), false); return;
  }
  s->phase = Session::Cmd;
  if (line.find('\r') != std::string::npos || line.find('\n') != std::string::npos || line.find('\0') != std::string::npos)
    viol(s, "C05", "bare-linebreak", fmt("command line contains a bare line break: \"%s\"", esc(line, 80).c_str()), opId);
  if (verb == "EHLO" || verb == "HELO") {
    int st = s->everTls || s->cfg.implicitTls ? S_EHLO2 : S_EHLO;
    log(st);
    if (s->tx) viol(s, "C05", "order", "EHLO inside a mail transaction", opId);
    Decision d = decide(s, st, opId);
    if (!blocksEffect(d.kind)) s->ehlo = true;
    resetTx(s);
    if (verb == "HELO") reply(s, st, opId, 250, {"hello"}, d);
    else reply(s, st, opId, 250, capLines(s), d, true);
    return;
  }
  if (verb == "STARTTLS") {
    log(S_STARTTLS);
    if (!s->ehlo || !s->cfg.offerTls || s->tls || s->tx) { viol(s, "C05", "order", "STARTTLS where it was not offered or not allowed", opId); reply(s, S_STARTTLS, opId, 503, {"bad sequence"}, Decision()); return; }
    Decision d = decide(s, S_STARTTLS, opId);
    bool go = d.kind < 0 || d.kind == F_unsolicited;
    if (s->cfg.injectPlain && d.kind < 0 && CH.chance(s->cfg.injectPlain)) {
      fired(F_inject_plain); W->terminalFired++; W->lastTerminalOp = opId; H.faults.push_back({opId, S_STARTTLS, "inject_plain", 0, s->c->id, ""});
      static const char *inj[] = {"250 injected\r\n", "250-mail.evil\r\n250-AUTH PLAIN LOGIN\r\n250 HELP\r\n", "250 ok\r\n235 ok\r\n250 ok\r\n250 ok\r\n354 go\r\n250 ok\r\n", "220 again\r\n"};
      std::string t = "220 2.0.0 ready\r\n", x = inj[CH.draw(4)];
      H.ev.push_back({W->now, s->srv->id, s->c->id, s->idx, 'S', false, opId, opId, S_STARTTLS, 220, t, true, false, (int)H.ev.size()});
      H.ev.push_back({W->now, s->srv->id, s->c->id, s->idx, 'S', false, opId, opId, S_STARTTLS, 0, x, true, true, (int)H.ev.size()});
      tr("S%d conn%d: 220 + injected plaintext %s", s->srv->id, s->c->id, esc(x).c_str());
      rawSend(s, t + x, opId, t.size()); s->lastReplyEnd = s->c->s2cTotal - x.size();
    } else reply(s, S_STARTTLS, opId, 220, {"2.0.0 ready"}, d);
    if (go && !s->closed) { s->tlsHandshake = true; s->c->oneDeadline = true; s->ehlo = false; }
    else if (d.kind >= 0 && d.kind != F_reject) s->starttlsPending = true;
    return;
  }
  if (verb == "AUTH") {
    log(S_AUTH);
    size_t p = line.find(' '); std::string rest = p == std::string::npos ? "" : line.substr(p + 1);
    size_t q = rest.find(' '); std::string mech = upper(rest.substr(0, q)), arg = q == std::string::npos ? "" : rest.substr(q + 1);
    if (!s->ehlo || s->tx) viol(s, "C05", "order", "AUTH before EHLO or inside a transaction", opId);
    if (s->authed) viol(s, "C05", "order", "AUTH again on an authenticated session", opId);
    s->authCount++;
    bool offered = (mech == "PLAIN" && s->cfg.authMask & M_PLAIN) || (mech == "LOGIN" && s->cfg.authMask & M_LOGIN) || (mech == "XOAUTH2" && s->cfg.authMask & M_XOAUTH2);
    if (!s->tls && !s->cfg.authOverPlain) offered = false;
    if (mech == "PLAIN" || mech == "XOAUTH2") {
      if (arg.empty()) {
        Decision d = decide(s, S_AUTH, opId);
        if (!blocksEffect(d.kind)) s->phase = Session::AuthPlainCont;
        reply(s, S_AUTH, opId, 334, {"go on"}, d); return;
      }
      std::string v, user, pass; bool ok = unb64(arg, &v);
      if (ok && mech == "PLAIN") {
        size_t z = v.find('\0'), z2 = z == std::string::npos ? z : v.find('\0', z + 1);
        if (z2 == std::string::npos) ok = false; else { user = v.substr(z + 1, z2 - z - 1); pass = v.substr(z2 + 1); if (z != 0) ok = user == v.substr(0, z); }
      } else if (ok) {
        size_t e = v.find('\1'); const std::string B = "auth=Bearer ";
        if (v.compare(0, 5, "user=") || e == std::string::npos || v.compare(e + 1, B.size(), B) || v.size() < 2 || v.compare(v.size() - 2, 2, "\1\1")) ok = false;
        else { user = v.substr(5, e - 5); pass = v.substr(e + 1 + B.size(), v.size() - 2 - e - 1 - B.size()); }
      }
      if (!ok) { H.auths.push_back({s->c->id, opId, mech, "<malformed>", v, s->tls, offered, false, 501}); reply(s, S_AUTH, opId, 501, {"malformed"}, Decision()); return; }
      s->lastMech = mech;
      finishAuth(s, S_AUTH, opId, mech, user, pass, mech == "XOAUTH2");
      if (s->phase == Session::AuthXoauthCont) s->lastMech = "XOAUTH2-FAILED";
      return;
    }
    if (mech == "LOGIN") {
      if (!offered) { H.auths.push_back({s->c->id, opId, mech, "", "", s->tls, false, false, 504}); reply(s, S_AUTH, opId, 504, {"not offered"}, Decision()); return; }
      Decision d = decide(s, S_AUTH, opId);
      std::string iu;
      if (!arg.empty() && unb64(arg, &iu)) { s->loginUser = iu; if (!blocksEffect(d.kind)) s->phase = Session::AuthPass; reply(s, S_AUTH, opId, 334, {"UGFzc3dvcmQ6"}, d); return; }
      if (!blocksEffect(d.kind)) s->phase = Session::AuthUser;
      reply(s, S_AUTH, opId, 334, {"VXNlcm5hbWU6"}, d); return;
    }
    H.auths.push_back({s->c->id, opId, mech, "", "", s->tls, false, false, 504});
    reply(s, S_AUTH, opId, 504, {"unknown mechanism"}, Decision()); return;
  }
  if (u.compare(0, 10, "MAIL FROM:") == 0) {
    log(S_MAIL);
    std::string a = line.substr(10); while (!a.empty() && a[0] == ' ') a.erase(0, 1);
    int form; std::string addr;
    if (!a.empty() && a[0] == '<') {
      size_t e = a.rfind('>'); addr = a.substr(1, e == std::string::npos ? std::string::npos : e - 1);
      size_t sp = addr.rfind(' ');
      form = sp == std::string::npos ? 1 : 2; if (sp != std::string::npos) addr = addr.substr(sp + 1);
    } else { form = 4; addr = a.substr(0, a.find(' ')); }
    if (!s->ehlo) { viol(s, "C05", "order", "MAIL before an accepted EHLO", opId); reply(s, S_MAIL, opId, 503, {"EHLO first"}, Decision()); return; }
    if (s->tx) { viol(s, "C05", "order", "MAIL inside an open transaction", opId); reply(s, S_MAIL, opId, 503, {"nested MAIL"}, Decision()); return; }
    if (s->cfg.requireAuth && !s->authed) { reply(s, S_MAIL, opId, 530, {"5.7.0 authentication required"}, Decision()); H.faults.push_back({opId, S_MAIL, "need-auth", 530, s->c->id, ""}); return; }
    if (!(s->cfg.mailFormats & form)) { H.faults.push_back({opId, S_MAIL, "format", 501, s->c->id, line}); reply(s, S_MAIL, opId, 501, {"5.1.7 bad sender syntax"}, Decision()); return; }
    Decision d = decide(s, S_MAIL, opId);
    if (!blocksEffect(d.kind)) { s->tx = true; s->from = addr; s->opMail = opId; s->mailCount++; }
    reply(s, S_MAIL, opId, 250, {"2.1.0 ok"}, d); return;
  }
  if (u.compare(0, 8, "RCPT TO:") == 0) {
    log(S_RCPT);
    std::string a = line.substr(8); while (!a.empty() && a[0] == ' ') a.erase(0, 1);
    if (!a.empty() && a[0] == '<') { size_t e = a.rfind('>'); a = a.substr(1, e == std::string::npos ? std::string::npos : e - 1); }
    if (!s->tx) { viol(s, "C05", "order", "RCPT without an accepted MAIL", opId); reply(s, S_RCPT, opId, 503, {"MAIL first"}, Decision()); return; }
    Decision d = decide(s, S_RCPT, opId);
    s->rcpts.push_back({a, !blocksEffect(d.kind), opId});
    if (d.kind < 0 && s->cfg.fwd && CH.chance(s->cfg.fwd)) { reply(s, S_RCPT, opId, 251, {"2.1.5 user not local; will forward"}, d); return; }
    reply(s, S_RCPT, opId, 250, {"2.1.5 ok"}, d); return;
  }
  if (u == "DATA") {
    log(S_DATA);
    int acc = 0; for (auto &r : s->rcpts) acc += r.accepted;
    if (!s->tx || !acc) { viol(s, "C05", "order", "DATA without accepted sender and recipient", opId); reply(s, S_DATA, opId, 503, {"bad sequence"}, Decision()); return; }
    Decision d = decide(s, S_DATA, opId);
    if (!blocksEffect(d.kind)) { s->phase = Session::Data; s->dataBuf.clear(); s->opData = opId; s->contentStarted = false; }
    reply(s, S_DATA, opId, 354, {"go ahead"}, d); return;
  }
  if (isQuit) {
    log(S_QUIT); s->quit = true; s->quitOp = opId;
    Decision d = decide(s, S_QUIT, opId);
    reply(s, S_QUIT, opId, 221, {"2.0.0 bye"}, d);
    if (!s->silentMode) closeSess(s, false, true, 1 * MS);
    return;
  }
  if (u == "RSET") { log(S_OTHER); resetTx(s); reply(s, S_OTHER, opId, 250, {"ok"}, Decision()); return; }
  if (verb == "NOOP") { log(S_OTHER); reply(s, S_OTHER, opId, 250, {"ok"}, Decision()); return; }
  log(S_OTHER);
  bool hello = line.size() > 2 && (unsigned char)line[0] == 0x16 && line[1] == 3;
  if (hello) s->clientTlsGarbage = true;
  viol(s, "C05", "unknown-command", fmt("the server received \"%s\" as a command", esc(line, 80).c_str()), opId);
  reply(s, S_OTHER, opId, 500, {"unknown command"}, Decision());
}

static void feed(Session *s, const std::string &d, SegMeta m) {
  s->lastOp = m.op;
  if (s->tls) s->tlsIn += d;
  if (s->phase == Session::Data) {
    if (!s->contentStarted) {
      s->contentStarted = true;
      if (m.consumed < s->lastReplyEnd) viol(s, "C05", "lockstep", "content was sent before the complete reply to DATA had been read", m.op);
    }
    size_t from = s->dataBuf.size();
    s->dataBuf += d;
    size_t end = std::string::npos, skip = 0;
    if (s->dataBuf.compare(0, 3, ".\r\n") == 0) { end = 0; skip = 3; }
    else { size_t p = s->dataBuf.find("\r\n.\r\n", from > 5 ? from - 5 : 0); if (p != std::string::npos) { end = p + 2; skip = p + 5; } }
    if (end == std::string::npos) return;
    std::string raw = s->dataBuf.substr(0, end), rest = s->dataBuf.substr(skip);
    s->dataBuf.clear(); s->phase = Session::Cmd;
    std::string content; bool bol = true;
    for (size_t i = 0; i < raw.size(); i++) {
      if (bol && raw[i] == '.') { bol = false; continue; }
      content += raw[i];
      bol = raw[i] == '\n' && i > 0 && raw[i - 1] == '\r';
    }
    H.ev.push_back({W->now, s->srv->id, s->c->id, s->idx, 'D', s->tls, s->opData, m.op, S_END, 0, content, true, false, (int)H.ev.size()});
    tr("C conn%d: <content %zu bytes>", s->c->id, content.size());
    shapeAdd("D");
    W->hash = fnv(W->hash, content.data(), content.size());
    s->inbuf.clear(); s->lineMetaSet = false;
    Decision dd = decide(s, S_END, m.op);
    if (!blocksEffect(dd.kind)) {
      Delivered v; v.server = s->srv->id; v.conn = s->c->id; v.sess = s->idx; v.opMail = s->opMail; v.opEnd = m.op; v.from = s->from; v.content = content; v.tls = s->tls; v.authUser = s->authUser; v.t = W->now; v.refusedRcpts = 0;
      for (auto &r : s->rcpts) if (r.accepted) v.rcpts.push_back(r.addr); else v.refusedRcpts++;
      H.delivered.push_back(v); slot->delivered++;
    }
    resetTx(s);
    reply(s, S_END, m.op, 250, {"2.0.0 queued"}, dd);
    if (!rest.empty()) feed(s, rest, m);
    return;
  }
  if (!s->lineMetaSet && !d.empty()) { s->lineMeta = m; s->lineMetaSet = true; }
  s->inbuf += d;
  for (;;) {
    if (s->closed || s->tlsHandshake || s->phase == Session::Data) {
      if (s->closed) { s->inbuf.clear(); return; }
      if (s->tlsHandshake) { if (!s->inbuf.empty()) viol(s, "C05", "lockstep", "bytes sent behind STARTTLS in clear", m.op); s->inbuf.clear(); return; }
      std::string rest; rest.swap(s->inbuf); s->lineMetaSet = false;
      if (!rest.empty()) feed(s, rest, m);
      return;
    }
    size_t p = s->inbuf.find("\r\n");
    if (p == std::string::npos) {
      // a TLS hello sent to a server that is not doing TLS
      if (s->inbuf.size() > 5 && (unsigned char)s->inbuf[0] == 0x16 && s->inbuf[1] == 3 && !s->clientTlsGarbage) {
        s->clientTlsGarbage = true;
        if (!s->starttlsPending && !s->firstBytesTls) viol(s, "C05", "unknown-command", "TLS handshake bytes sent although the server did not agree to start TLS", m.op);
      }
      return;
    }
    std::string line = s->inbuf.substr(0, p);
    s->inbuf.erase(0, p + 2);
    SegMeta lm = s->lineMeta;
    s->lineMeta = m; s->lineMetaSet = !s->inbuf.empty();
    command(s, line, lm, m.op);
  }
}

void Server::onBytes(Conn *c, const std::string &d) {
  Session *s = find(this, c); if (!s) return;
  ErrGuard g;
  // find the metadata of the run this data belongs to
  SegMeta m{0, c->opCreated, 0, W->now};
  for (auto &x : c->meta) if (x.end > s->got) { m = x; break; }
  if (s->got == 0 && !d.empty() && (unsigned char)d[0] == 0x16) s->firstBytesTls = true;   // a client that speaks TLS from the first byte
  s->got += d.size();
  if (s->closed) return;
  if (s->tlsHandshake && !s->tls) {
    if (!s->ssl) {
      if (s->cfg.tlsFault && W->nf.terminal && W->terminalFired < W->terminalBudget && CH.chance(s->cfg.tlsFault)) {
        static const Fault f[] = {F_tls_garbage, F_tls_close, F_tls_stall, F_tls_rst, F_tls_stall, F_handshake_slow};
        uint32_t k = CH.draw(6);
        if (takeTerminal(f[k], "handshake")) {
          H.faults.push_back({m.op, S_TLS, faultNames[f[k]], 0, c->id, ""});
          if (Op *o = op(m.op)) if (o->id != curOp()) o->faultsHit.push_back(f[k]);
          s->tlsFaulted = true; s->lastReplyEnd = UINT64_MAX; s->silentMode = true;
          if (k == 0) { std::string t = "454 TLS not available\r\n"; netSend(c, t, makePlan(s, t.size(), m.op, 0)); }
          else if (k == 1) closeSess(s, false, false, 1 * MS);
          else if (k == 3) closeSess(s, true, false, 1 * MS);
          else if (k == 4) s->cfg.tlsFault = 5000;   // partial server flight, then silence
          else if (k == 5) s->cfg.tlsFault = 6000;   // the flight arrives one byte at a time, far too slowly
          if (k < 4) return;
        }
      }
      SSL_CTX *x = srvCtx[s->cfg.cert];
      s->ssl = SSL_new(x);
      BIO *r = BIO_new(BIO_s_mem()), *w = BIO_new(BIO_s_mem());
      BIO_set_mem_eof_return(r, -1); BIO_set_mem_eof_return(w, -1);
      SSL_set_bio(s->ssl, r, w); SSL_set_accept_state(s->ssl);
      if (s->cfg.maxTls == 1) { SSL_set_max_proto_version(s->ssl, TLS1_2_VERSION); fired(F_tls12); }
    }
    BIO_write(SSL_get_rbio(s->ssl), d.data(), (int)d.size());
    int r = SSL_do_handshake(s->ssl);
    if (s->cfg.tlsFault == 6000) {
      BIO *w = SSL_get_wbio(s->ssl); std::string o; char b[4096]; int n;
      while ((n = BIO_read(w, b, sizeof b)) > 0) o.append(b, (size_t)n);
      if (!o.empty()) { ns_t dt = (ns_t)(300 + 100 * CH.draw(25)) * MS; netSend(c, o, std::vector<std::pair<size_t, ns_t>>(o.size(), {1, dt})); }
      return;
    }
    if (s->cfg.tlsFault == 5000) {
      BIO *w = SSL_get_wbio(s->ssl); std::string o; char b[4096]; int n;
      while ((n = BIO_read(w, b, sizeof b)) > 0) o.append(b, (size_t)n);
      if (!o.empty()) { o = o.substr(0, 1 + CH.draw((uint32_t)o.size() - 1)); netSend(c, o, makePlan(s, o.size(), m.op, 5)); }
      return;
    }
    if (r == 1) {
      s->tls = true; s->everTls = true; s->tlsHandshake = false; s->c->oneDeadline = false; s->ehlo = false; s->authed = false; s->inbuf.clear(); s->lineMetaSet = false;
      tr("server%d conn%d TLS established %s cert=%s", id, c->id, SSL_get_version(s->ssl), certNames[s->cfg.cert]);
      shapeAdd("TLS");
      { unsigned d0 = s->cfg.delay; s->cfg.delay = 0; flushTls(s, m.op); s->cfg.delay = d0; }   // session tickets: a delay here would add to that of the next reply
      s->lastReplyEnd = 0;
      if (s->cfg.implicitTls) greet(s);
    } else {
      int e = SSL_get_error(s->ssl, r);
      flushTls(s, m.op);
      if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { tr("server%d conn%d TLS handshake failed", id, c->id); closeSess(s, false, false, 1 * MS); }
      return;
    }
  } else if (s->tls) {
    BIO_write(SSL_get_rbio(s->ssl), d.data(), (int)d.size());
  } else { feed(s, d, m); return; }
  char b[16384];
  for (;;) {
    if (s->closed) return;
    int n = SSL_read(s->ssl, b, sizeof b);
    if (n <= 0) {
      int e = SSL_get_error(s->ssl, n);
      if (e == SSL_ERROR_WANT_READ) break;
      if (e == SSL_ERROR_ZERO_RETURN) { tr("conn%d client close_notify", c->id); break; }
      // not TLS records: the client wrote raw bytes into the TLS stream
      viol(s, "C08", "raw-on-tls", fmt("bytes that are not TLS records were sent inside the TLS session: \"%s\"", esc(d, 80).c_str()), m.op);
      s->plainIn += d;
      closeSess(s, true, false, 1 * MS);
      break;
    }
    feed(s, std::string(b, (size_t)n), m);
  }
  flushTls(s, m.op);
}
