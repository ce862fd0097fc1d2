// Model-based testing of the server (C28, C29, C30, C32).
//
// A case is a server of the library with several clients of the harness.  What
// a client sends is a byte string; a reference parser applied to it one
// request after the other tells which requests the application must be given,
// and where the input becomes invalid.  The application (also the harness)
// answers inside the callback or later.  What a client receives is parsed, and
// must be the answers that were given, in order.
#ifndef SERVER_MODEL_H
#define SERVER_MODEL_H
#include "srv.h"
#include "ref_http.h"
#include "certs.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

namespace svm
{
  // what is generated: servers over TLS, servers without; invalid requests; disconnects, closes, holds, shutdowns
  struct Cfg { bool tls, plain, bad, life; };
  extern const Cfg cfg;

  struct Field { bool named; std::string name, value; };
  struct Req { std::string method, target; std::vector<Field> fields; size_t end; };
  struct Answer { std::string status, type, body; };
  enum Kind { UNIX, TCP, DIRECT };
  struct Conn
  {
    int id = 0, peer = -1;
    Kind kind = UNIX;
    // what the client sends
    std::string script;
    size_t sent = 0, items = 0, parsed = 0, bad_at = (size_t) -1;
    std::vector<Req> reqs;
    // what became of it
    size_t delivered = 0;
    std::vector<Answer> answers;
    bool outstanding = false;
    bool bad_due = false;       // the invalid request was reached
    bool closed = false;        // by the application, or a shutdown
    bool truncated = false;     // ... in a way that may cut off what was answered before
    bool gone = false;          // the client closed its socket
    bool half = false;          // the client shut down its output
    bool garbage = false;       // the client does not speak TLS
    // what the client received
    std::string got;
    size_t got_at = 0, responses = 0;
    bool eof = false;
    // TLS
    bool tls = false;
    SSL *ssl = nullptr;
    BIO *rb = nullptr, *wb = nullptr;
    std::string cipher;
    bool ended = false;         // the client ends its side of the TLS session behind what it has to send, and goes on reading
    bool live() const { return !closed && !gone && !half && !bad_due; }
    bool fin() const { return closed || half || bad_due; } // the server may close it
  };
  struct Hold { void *rq; Conn *c; bool due; unsigned extra; };

  static void *server;
  static std::vector<void *> servers;     // destructed ones, whose memory is kept while requests are held
  static void *token;
  static std::vector<std::unique_ptr<Conn>> conns;
  static std::vector<Hold> holds;
  static bool is_open, ever_opened, ctx_set;
  static Kind listen_kind;
  static struct sockaddr_un unix_address;
  static struct sockaddr_in tcp_address;
  static SSL_CTX *tls_server_ctx[2], *tls_client_ctx;
  static bool in_loop, in_api;
  static int depth;
  static size_t budget, conn_budget;
  static uint64_t body_budget;
  static std::vector<int> closed_fds, fillers;
  static int null_fd, unique;
  static unsigned at_once; // chance in 1000 that a request is answered as it is delivered
  static bool direct_rare;
  static bool marathon, crowd; // rare cases with very many requests, or clients
  static int only;
  // what happened in the case
  static struct Seen { bool pipelined, split, deferred, backlog, interleaved, bad_after_good, bad_beside, dead_answer, held_past_close, shutdown_busy, reopened, tls_many, handshake_harm, dropped_busy; unsigned answered; } seen;
  static const char *I() { return in_loop ? "    " : "  "; }
  static std::string show(const std::string &s) { return vx::quote(s, 160); }

  // --- TLS -----------------------------------------------------------------
  static long ssl_live;
  static void *ssl_malloc(size_t n, const char *, int) { if (!n) return nullptr; __atomic_add_fetch(&ssl_live, 1, __ATOMIC_SEQ_CST); return malloc(n); }
  static void ssl_free(void *p, const char *, int) { if (p) __atomic_sub_fetch(&ssl_live, 1, __ATOMIC_SEQ_CST); free(p); }
  static void *ssl_realloc(void *p, size_t n, const char *f, int l)
  {
    if (!p) return ssl_malloc(n, f, l);
    if (!n) { ssl_free(p, f, l); return nullptr; }
    return realloc(p, n);
  }
  static inline void init()
  {
    if (!cfg.tls) return;
    CRYPTO_set_mem_functions(ssl_malloc, ssl_realloc, ssl_free);
    for (int i = 0; i < 2; i++)
    {
      SSL_CTX *c = tls_server_ctx[i] = SSL_CTX_new(TLS_server_method());
      SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF);
      if (i) SSL_CTX_set_max_proto_version(c, TLS1_2_VERSION);
      EVP_PKEY *k = certs::key(0);
      X509 *x = certs::cert(k, 0, i ? 30000 : 0);
      SSL_CTX_use_certificate(c, x);
      SSL_CTX_use_PrivateKey(c, k);
      X509_free(x);
      EVP_PKEY_free(k);
    }
    tls_client_ctx = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_session_cache_mode(tls_client_ctx, SSL_SESS_CACHE_OFF);
    SSL_CTX_set_max_cert_list(tls_client_ctx, 1 << 20);
    for (SSL_CTX *sc : tls_server_ctx)
    { // what OpenSSL allocates once
      SSL *s = SSL_new(sc), *c = SSL_new(tls_client_ctx);
      BIO *a, *b;
      BIO_new_bio_pair(&a, 1 << 18, &b, 1 << 18);
      SSL_set_bio(s, a, a); SSL_set_bio(c, b, b);
      SSL_set_accept_state(s); SSL_set_connect_state(c);
      for (int i = 0; i < 20; i++) { SSL_do_handshake(c); SSL_do_handshake(s); }
      SSL_free(s); SSL_free(c);
    }
    ERR_clear_error();
  }

  // --- descriptors the server closed: their numbers are taken at once, so that nothing else gets written to them
  static int fault(const char *call, int fd)
  {
    if (!strcmp(call, "close")) closed_fds.push_back(fd);
    return 0;
  }
  static void fill()
  {
    for (int fd : closed_fds) if (fcntl(fd, F_GETFD) == -1) { dup2(null_fd, fd); fillers.push_back(fd); }
    closed_fds.clear();
  }
  static int on_write(int fd, size_t *)
  {
    struct stat st;
    CHECK(fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode), "the server writes to descriptor %d, which it has closed", fd);
    return 0;
  }

  // --- responses -----------------------------------------------------------
  static const char *const days[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
  static const char *const months[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  static bool date_ok(const std::string &d)
  {
    if (d.size() != 29) return false;
    struct tm t = {};
    char rest[8];
    if (!strptime(d.c_str() + 5, "%d %b %Y %H:%M:%S", &t) || sscanf(d.c_str() + 25, "%7s", rest) != 1) return false;
    time_t x = timegm(&t);
    gmtime_r(&x, &t);
    char b[64];
    snprintf(b, sizeof b, "%s, %02d %s %04d %02d:%02d:%02d GMT", days[t.tm_wday], t.tm_mday, months[t.tm_mon], t.tm_year + 1900, t.tm_hour, t.tm_min, t.tm_sec);
    return d == b;
  }
  static void latch_bad(Conn &c)
  {
    if (!c.garbage && !c.closed && !c.bad_due && c.bad_at != (size_t) -1 && c.sent >= c.bad_at && c.delivered == c.reqs.size() && !c.outstanding)
    {
      c.bad_due = true;
      if (c.delivered) seen.bad_after_good = true;
      for (auto &o : conns) if (o.get() != &c && o->live()) seen.bad_beside = true;
    }
  }
  // the response that starts at got_at, if it is complete (or, at the end, as far as it was received)
  static bool response(Conn &c, bool last)
  {
    if (c.got_at == c.got.size()) return false;
    latch_bad(c);
    Answer bad = {"400 Bad Request", "", ""}, *want = nullptr;
    if (c.responses < c.answers.size()) want = &c.answers[c.responses];
    else if (c.bad_due && c.responses == c.answers.size() && !c.outstanding) want = &bad;
    CHECK(want, "client %d receives something after the %zu answers given so far: %s", c.id, c.responses, show(c.got.substr(c.got_at, 200)).c_str());
    size_t head = c.got.find("\r\n\r\n", c.got_at);
    if (head == std::string::npos)
    {
      std::string start = "HTTP/1.1 " + want->status + "\r\n", have = c.got.substr(c.got_at, start.size());
      CHECK(start.substr(0, have.size()) == have, "client %d: response %zu starts with %s, the answer was %s", c.id, c.responses, show(have).c_str(), show(want->status).c_str());
      CHECK(c.got.size() - c.got_at < 8192 + want->status.size() + want->type.size(), "client %d: response %zu has no end: %s", c.id, c.responses, show(c.got.substr(c.got_at, 200)).c_str());
      return false;
    }
    head += 4;
    std::string h = c.got.substr(c.got_at, head - c.got_at);
    ref::Result r = ref::response(h, 64);
    CHECK(r.verdict == (int) h.size(), "client %d: response %zu is not valid: %s", c.id, c.responses, show(h).c_str());
    auto slice = [&](const ref::Slice &s) { return h.substr(s.off, s.len); };
    std::string line = h.substr(0, h.find("\r\n"));
    CHECK(line == "HTTP/1.1 " + want->status, "client %d: response %zu is %s, the answer was %s", c.id, c.responses, show(line).c_str(), show(want->status).c_str());
    size_t length = (size_t) -1, types = 0, dates = 0;
    for (auto &f : r.fields)
    {
      std::string n = slice(f.name), v = slice(f.value);
      if (!strcasecmp(n.c_str(), "Content-Length")) { CHECK(length == (size_t) -1, "client %d: response %zu has two lengths", c.id, c.responses); CHECK(v == std::to_string(want->body.size()), "client %d: response %zu has length %s, the body has %zu bytes", c.id, c.responses, v.c_str(), want->body.size()); length = want->body.size(); }
      if (!strcasecmp(n.c_str(), "Content-Type")) { types++; CHECK(v == want->type, "client %d: response %zu has type %s, expected %s", c.id, c.responses, show(v).c_str(), show(want->type).c_str()); }
      if (!strcasecmp(n.c_str(), "Date")) { dates++; CHECK(date_ok(v), "client %d: response %zu has date %s", c.id, c.responses, show(v).c_str()); }
    }
    CHECK(length != (size_t) -1, "client %d: response %zu has no length", c.id, c.responses);
    CHECK(types == !want->type.empty(), "client %d: response %zu has %zu types, the answer's is %s", c.id, c.responses, types, show(want->type).c_str());
    CHECK(dates == 1, "client %d: response %zu has %zu dates", c.id, c.responses, dates);
    size_t have = std::min(c.got.size() - head, length);
    if (have < length && !last) return false;
    CHECK(c.got.compare(head, have, want->body, 0, have) == 0, "client %d: response %zu has a wrong body", c.id, c.responses);
    if (have < length) return false;
    c.got_at = head + length;
    c.responses++;
    return true;
  }
  static void check_got(Conn &c, bool last = false) { while (response(c, last)) ; }

  // --- the client ----------------------------------------------------------
  static void parse(Conn &c)
  {
    while (c.bad_at == (size_t) -1 && c.parsed < c.script.size())
    {
      std::string rest = c.script.substr(c.parsed);
      ref::Result r = ref::request(rest, 16);
      if (r.verdict == -2) return;
      if (r.verdict == -1)
      {
        size_t lo = 1, hi = rest.size();
        while (lo < hi) { size_t m = (lo + hi) / 2; if (ref::request(rest.substr(0, m), 16).verdict == -1) hi = m; else lo = m + 1; }
        c.bad_at = c.parsed + lo;
        return;
      }
      auto slice = [&](const ref::Slice &s) { return s.null ? std::string() : rest.substr(s.off, s.len); };
      Req q;
      q.method = slice(r.method); q.target = slice(r.target);
      for (auto &f : r.fields) q.fields.push_back({!f.name.null, slice(f.name), slice(f.value)});
      q.end = c.parsed + (size_t) r.verdict;
      char own[32];
      snprintf(own, sizeof own, "/c%d.", c.id);
      if (q.target.compare(0, strlen(own), own) != 0)
      { // damage made a valid request that does not tell whose it is
        c.script.resize(std::max(c.parsed, c.sent)); // what was sent of it is an incomplete request
        c.bad_at = (size_t) -2;
        return;
      }
      c.reqs.push_back(q);
      c.parsed = q.end;
    }
  }
  static std::string valid(Conn &c)
  {
    static const std::vector<std::string> methods = {"GET", "POST", "OPTIONS", "A"};
    std::string s;
    if (vx::chance(1, 12)) s += gen::eol();
    s += vx::chance(2, 3) ? vx::pick(methods) : gen::chars(1 + gen::length(4), vx::chance(1, 2) ? gen::tokens() : gen::visible());
    s += gen::blanks() + "/c" + std::to_string(c.id) + ".r" + std::to_string(c.items) + (vx::chance(1, 2) ? "" : "/" + gen::chars(gen::length(10), gen::visible()));
    if (vx::chance(1, 25)) s += gen::chars(vx::size(60000), gen::visible());
    s += gen::blanks() + "HTTP/1." + (vx::chance(1, 6) ? std::string(1, (char) ('0' + vx::below(10))) : "1") + gen::eol();
    size_t n = vx::chance(1, 2) ? vx::below(4) : vx::below(17);
    std::string f = gen::fields(n);
    if (n && vx::chance(1, 25)) f = "X-Long: " + gen::chars(1 + vx::size(60000), gen::visible()) + "\r\n" + gen::fields(n - 1);
    return s + f;
  }
  static std::string invalid(Conn &c)
  {
    std::string s = valid(c);
    switch (vx::below(6))
    {
    case 0: gen::damage(s); return s;
    case 1: return "GET /c" + std::to_string(c.id) + ".x HTTP/1.1\r\n" + gen::fields(17 + vx::below(vx::chance(1, 4) ? 60 : 3));
    case 2: return vx::bytes(vx::below(12)) + "\r\n\r\n";
    case 3: { std::string v = gen::version(); return "GET /c" + std::to_string(c.id) + ".y " + v + "\r\n\r\n"; }
    case 4: { gen::damage(s); gen::damage(s); return s; }
    default: return vx::pattern(vx::size(3000));
    }
  }
  static void append(Conn &c)
  {
    if (c.script.size() > 400000 || c.items > (marathon ? 2000 : 40) || c.bad_at == (size_t) -2) return;
    if (marathon && c.items < 1500 && vx::chance(1, 3))
    {
      size_t n = 20 + vx::size(1400);
      vx::count("bursts of requests");
      LOG("%sclient %d has %zu small requests to send", I(), c.id, n);
      while (n--) c.script += "GET /c" + std::to_string(c.id) + ".r" + std::to_string(c.items++) + " HTTP/1.1\r\n\r\n";
      parse(c);
      return;
    }
    bool bad = cfg.bad && vx::chance(1, 5);
    c.script += bad ? invalid(c) : valid(c);
    if (cfg.bad && c.bad_at == (size_t) -1 && vx::chance(1, 30)) c.script.resize(c.script.size() - std::min<size_t>(c.script.size() - std::max(c.sent, c.parsed), vx::below(20))); // incomplete at the end, followed by something else
    c.items++;
    if (c.script.size() < c.sent) c.script.resize(c.sent);
    parse(c);
    LOG("%sclient %d has %zu bytes to send, with %zu requests%s: ...%s", I(), c.id, c.script.size(), c.reqs.size(), c.bad_at < (size_t) -2 ? " and something invalid" : "", vx::quote(c.script.substr(c.script.size() - std::min<size_t>(c.script.size(), 100)), 100).c_str());
  }
  static void take_cipher(Conn &c)
  {
    char b[16384];
    int n;
    while ((n = BIO_read(c.wb, b, sizeof b)) > 0) if (!c.garbage) c.cipher.append(b, (size_t) n);
  }
  static size_t raw(Conn &c, const char *p, size_t n)
  {
    ssize_t k = send(c.peer, p, n, MSG_NOSIGNAL);
    return k > 0 ? (size_t) k : 0;
  }
  static void handshake(Conn &c)
  {
    if (c.tls && !c.garbage && !SSL_is_init_finished(c.ssl)) { ERR_clear_error(); SSL_do_handshake(c.ssl); take_cipher(c); }
  }
  // moves up to n bytes of what the client sends
  static size_t pump(Conn &c, size_t n)
  {
    if (c.peer < 0 || c.half || !n) return 0;
    if (!c.tls)
    {
      size_t k = raw(c, c.script.data() + c.sent, std::min(n, c.script.size() - c.sent));
      c.sent += k;
      latch_bad(c);
      return k;
    }
    handshake(c);
    if (c.garbage) { if (c.cipher.empty() && c.sent < 3000) { c.cipher = vx::pattern(1 + vx::size(2000)); c.sent += c.cipher.size(); } }
    size_t k = raw(c, c.cipher.data(), std::min(n, c.cipher.size()));
    c.cipher.erase(0, k);
    return k;
  }
  // hands up to n bytes of the script to TLS
  static void encrypt(Conn &c, size_t n)
  {
    if (!c.tls || c.garbage || c.peer < 0 || c.half) return;
    handshake(c);
    while (n && c.sent < c.script.size() && SSL_is_init_finished(c.ssl))
    {
      ERR_clear_error();
      int k = SSL_write(c.ssl, c.script.data() + c.sent, (int) std::min({n, c.script.size() - c.sent, (size_t) 40000}));
      if (k <= 0) break;
      c.sent += (size_t) k;
      n -= (size_t) k;
      take_cipher(c);
    }
    if (c.ended && c.sent == c.script.size() && SSL_is_init_finished(c.ssl) && !SSL_get_shutdown(c.ssl))
    {
      ERR_clear_error();
      SSL_shutdown(c.ssl);
      take_cipher(c);
      vx::count("the client ends the TLS session");
    }
    latch_bad(c);
  }
  static void got_eof(Conn &c)
  {
    latch_bad(c);
    CHECK(c.fin() || c.garbage, "client %d: the server closed the connection by itself", c.id);
    c.eof = true;
  }
  static size_t peer_read(Conn &c, size_t n)
  {
    if (c.peer < 0 || c.eof) return 0;
    static uint8_t b[65536];
    static char d[65536];
    size_t moved = 0;
    while (n)
    {
      ssize_t k = read(c.peer, b, std::min(n, sizeof b));
      if (k == 0 || (k < 0 && errno != EAGAIN)) { got_eof(c); break; }
      if (k < 0) break;
      moved += (size_t) k;
      n -= (size_t) k;
      if (!c.tls) { c.got.append((char *) b, (size_t) k); continue; }
      if (c.garbage) continue;
      BIO_write(c.rb, b, (int) k);
      int m;
      ERR_clear_error();
      while ((m = SSL_read(c.ssl, d, sizeof d)) > 0) c.got.append(d, (size_t) m);
      CHECK(c.half || SSL_get_error(c.ssl, m) != SSL_ERROR_SSL, "client %d cannot decrypt what the server sent (%s)", c.id, ERR_error_string(ERR_peek_error(), nullptr));
      take_cipher(c);
    }
    check_got(c);
    return moved;
  }
  static void free_peer(Conn &c)
  {
    if (c.peer >= 0) close(c.peer);
    c.peer = -1;
    if (c.ssl) { SSL_free(c.ssl); c.ssl = nullptr; }
  }
  static void disconnect(Conn &c, int how) // 0: close, 1: shut down, 2: reset
  {
    if (c.peer < 0 || c.half) return;
    if (how == 2 && c.kind != TCP) how = 0;
    static const char *names[] = {"closes", "shuts down", "resets"};
    LOG("%sclient %d %s", I(), c.id, names[how]);
    vx::count(names[how]);
    if (c.outstanding) seen.dropped_busy = true;
    if (c.tls && !c.garbage && !SSL_is_init_finished(c.ssl)) seen.handshake_harm = true;
    latch_bad(c);
    if (how == 1) { shutdown(c.peer, SHUT_WR); c.half = true; return; }
    if (how == 2) { linger l = {1, 0}; setsockopt(c.peer, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    c.gone = true;
    free_peer(c);
  }

  // --- the application ------------------------------------------------------
  static Hold *hold_of(void *rq) { for (auto &h : holds) if (h.rq == rq) return &h; return nullptr; }
  static void forget(void *rq)
  {
    for (size_t i = 0; i < holds.size(); i++) if (holds[i].rq == rq && !holds[i].due && !holds[i].extra) { holds.erase(holds.begin() + (long) i); return; }
  }
  struct Api { Api() { in_api = true; depth++; } ~Api() { depth--; in_api = depth > 0; fill(); } };
  static void mark_closed(Conn &c, bool truncated)
  {
    latch_bad(c);
    c.truncated = c.truncated || truncated;
    c.closed = true;
  }
  static void answer(void *rq, int how) // 0 ok, 1 respond, 2 not found, 3 bad request
  {
    Hold *h = hold_of(rq);
    Conn &c = *h->c;
    Answer a;
    size_t n = vx::chance(1, at_once > 600 ? 200 : 8) ? vx::size(400000) : vx::size(200);
    if (how < 2 && n > body_budget) n = (size_t) body_budget;
    switch (how)
    {
    case 0: a.status = "200 OK"; break;
    case 1: a.status = std::to_string(100 + vx::below(900)) + " " + gen::chars(1 + vx::below(20), gen::tokens()); break;
    case 2: a.status = "404 Not Found"; break;
    case 3: a.status = "400 Bad Request"; break;
    }
    if (how < 2)
    {
      body_budget -= n;
      a.body = vx::pattern(n);
      if (!vx::chance(1, 6)) a.type = vx::chance(1, 2) ? "text/plain" : gen::chars(1 + gen::length(8), gen::tokens());
    }
    LOG("%sanswer %s with %s, %zu bytes%s", I(), show(c.reqs[c.delivered - 1].target).c_str(), a.status.c_str(), a.body.size(), c.closed ? " (closed)" : "");
    h->due = false;
    c.outstanding = false;
    if (!c.closed && !c.half && !c.gone) seen.answered++;
    if (c.closed || c.gone || c.half) seen.dead_answer = true;
    if (!c.closed) c.answers.push_back(a);
    if (how == 3) mark_closed(c, false);
    else latch_bad(c);
    forget(rq);
    {
      Api api;
      vx::Exact s(a.status), t(a.type), b(a.body);
      data td = a.type.empty() && vx::chance(1, 2) ? data_null() : dat(t);
      switch (how)
      {
      case 0: srv_ok(rq, td, dat(b)); break;
      case 1: srv_respond(rq, dat(s), td, dat(b)); break;
      case 2: srv_not_found(rq); break;
      case 3: srv_bad_request(rq); break;
      }
    }
    if (!c.tls && c.peer >= 0 && a.body.size() > 300000) seen.backlog = true;
  }
  static int some_answer() { return (int) vx::weighted({6, 3, 2, cfg.life || cfg.bad ? 1u : 0u}); }
  static void program(Conn *, unsigned);

  static void deliver(void *rq)
  {
    std::string method = str(srv_method(rq)), target = str(srv_target(rq));
    size_t n;
    http_field *f = srv_fields(rq, &n);
    int id = -1;
    sscanf(target.c_str(), "/c%d.", &id);
    CHECK(id >= 0 && (size_t) id < conns.size(), "the application is given a request nobody sent: %s %s", show(method).c_str(), show(target).c_str());
    Conn &c = *conns[(size_t) id];
    LOG("  request %s %s", show(method).c_str(), show(target.substr(0, 40)).c_str());
    CHECK(!c.closed, "client %d: a request is delivered after the connection was closed", id);
    CHECK(!c.outstanding, "client %d: %s is delivered before the previous request was answered", id, show(target).c_str());
    CHECK(c.delivered < c.reqs.size() && c.reqs[c.delivered].end <= c.sent, "client %d: %s is delivered, but there are only %zu complete requests", id, show(target).c_str(), c.delivered);
    Req &q = c.reqs[c.delivered];
    CHECK(method == q.method && target == q.target, "client %d: delivered %s %s, expected %s %s", id, show(method).c_str(), show(target).c_str(), show(q.method).c_str(), show(q.target).c_str());
    CHECK(n == q.fields.size(), "client %d: request %zu has %zu fields, expected %zu", id, c.delivered, n, q.fields.size());
    for (size_t i = 0; i < n; i++)
    {
      CHECK(data_empty(f[i].name) == !q.fields[i].named && str(f[i].name) == q.fields[i].name, "client %d: request %zu: field %zu is %s, expected %s", id, c.delivered, i, show(str(f[i].name)).c_str(), show(q.fields[i].name).c_str());
      CHECK(str(f[i].value) == q.fields[i].value, "client %d: request %zu: value %zu is %s, expected %s", id, c.delivered, i, show(str(f[i].value)).c_str(), show(q.fields[i].value).c_str());
    }
    c.delivered++;
    c.outstanding = true;
    if (c.sent > q.end) seen.pipelined = true;
    if (c.tls && c.delivered > 1) seen.tls_many = true;
    Hold *h = hold_of(rq);
    CHECK(!h || (h->c == &c && !h->due), "client %d: the request object of another request is used", id);
    if (h) h->due = true;
    else holds.push_back({rq, &c, true, 0});
  }
  static void callback(reactor_event *e)
  {
    fill();
    CHECK(e->state == token, "the callback's state is wrong");
    CHECK(e->type == 0, "unknown event %d", e->type);
    CHECK(in_loop || in_api, "a request is delivered outside of the loop");
    void *rq = (void *) e->data;
    deliver(rq);
    if (only) return;
    bool was = in_loop;
    in_loop = true;
    if (vx::chance(at_once, 1000)) answer(rq, at_once > 600 && !vx::chance(1, 100) ? 0 : some_answer());
    else { seen.deferred = true; LOG("    (later)"); }
    if (depth < 6 && (at_once == 600 || vx::chance(1, 50))) program(hold_of(rq) ? hold_of(rq)->c : nullptr, 1);
    in_loop = was;
  }

  // --- the server ------------------------------------------------------------
  static void open_server()
  {
    bool tls = cfg.tls && (!cfg.plain || vx::chance(2, 3));
    listen_kind = vx::chance(1, 8) ? TCP : UNIX;
    int fd = socket(listen_kind == TCP ? AF_INET : AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
    if (listen_kind == TCP)
    {
      memset(&tcp_address, 0, sizeof tcp_address);
      tcp_address.sin_family = AF_INET;
      tcp_address.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      socklen_t n = sizeof tcp_address;
      CHECK(bind(fd, (sockaddr *) &tcp_address, n) == 0 && listen(fd, 300) == 0 && getsockname(fd, (sockaddr *) &tcp_address, &n) == 0, "tcp: %m");
    }
    else
    {
      memset(&unix_address, 0, sizeof unix_address);
      unix_address.sun_family = AF_UNIX;
      snprintf(unix_address.sun_path, sizeof unix_address.sun_path, "%s/s%d", vx::scratch(), ++unique);
      unlink(unix_address.sun_path);
      CHECK(bind(fd, (sockaddr *) &unix_address, sizeof unix_address) == 0 && listen(fd, 300) == 0, "unix: %m");
    }
    LOG("%sopen%s on %d", I(), tls ? " tls" : "", fd);
    if (ever_opened) seen.reopened = true;
    ever_opened = is_open = true;
    ctx_set = tls;
    Api api;
    srv_open(server, fd, tls ? vx::pick(std::vector<SSL_CTX *>{tls_server_ctx[0], tls_server_ctx[1]}) : nullptr);
    if (listen_kind == UNIX) {} // the socket file stays until the end of the case
  }
  static void shutdown_server()
  {
    LOG("%sshutdown", I());
    vx::count("shutdown");
    for (auto &c : conns) { if (c->live() && (c->outstanding || c->sent < c->script.size())) seen.shutdown_busy = true; mark_closed(*c, true); }
    is_open = false;
    Api api;
    srv_shutdown(server);
  }
  static void connect_client()
  {
    if (!conn_budget) return;
    bool direct = vx::chance(1, crowd && direct_rare ? 30 : 2) || !is_open;
    if (direct && ever_opened && !is_open) return;
    conn_budget--;
    conns.emplace_back(new Conn);
    Conn &c = *conns.back();
    c.id = (int) conns.size() - 1;
    c.tls = is_open && ctx_set;
    int server_end = -1;
    if (direct)
    {
      c.kind = DIRECT;
      int p[2];
      CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "socketpair");
      if (vx::chance(2, 3))
      { // small buffers
        int n = (int) (1 + vx::size(20000));
        setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
        n = (int) (1 + vx::size(20000));
        setsockopt(p[1], SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
      }
      server_end = p[0];
      c.peer = p[1];
    }
    else
    {
      c.kind = listen_kind;
      c.peer = socket(c.kind == TCP ? AF_INET : AF_UNIX, SOCK_STREAM, 0);
      int e = c.kind == TCP ? connect(c.peer, (sockaddr *) &tcp_address, sizeof tcp_address) : connect(c.peer, (sockaddr *) &unix_address, sizeof unix_address);
      CHECK(e == 0, "client %d cannot connect: %m", c.id);
      fcntl(c.peer, F_SETFL, O_NONBLOCK);
      if (c.kind == TCP) { int one = 1; setsockopt(c.peer, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
    }
    if (c.tls)
    {
      c.ssl = SSL_new(tls_client_ctx);
      c.rb = BIO_new(BIO_s_mem()); c.wb = BIO_new(BIO_s_mem());
      SSL_set_bio(c.ssl, c.rb, c.wb);
      SSL_set_connect_state(c.ssl);
      if (vx::chance(1, 8)) { c.garbage = true; seen.handshake_harm = true; vx::count("garbage instead of TLS"); }
    }
    LOG("%sclient %d connects%s%s%s", I(), c.id, direct ? " directly" : "", c.tls ? " with TLS" : "", c.garbage ? " (garbage)" : "");
    size_t n = 1 + vx::below(4);
    for (size_t i = 0; i < n; i++) append(c);
    if (direct)
    {
      if (vx::chance(1, 2)) { encrypt(c, vx::size(4000)); pump(c, vx::size(4000)); } // data is there already
      Api api;
      srv_accept(server, server_end);
    }
  }
  static void step(Conn *self)
  {
    if (conns.empty()) { if (is_open || !ever_opened) connect_client(); else open_server(); return; }
    Conn &c = self && vx::chance(1, 2) ? *self : *conns[vx::below(conns.size())];
    unsigned life = cfg.life ? 3 : 0;
    switch (vx::weighted({8, 5, 4, 6, 3, life, life, life, life ? 1u : 0u, life ? 2u : 0u}))
    {
    case 0:
    {
      size_t n = vx::chance(1, 3) ? 1000000 : 1 + vx::size(vx::chance(1, 2) ? 60 : 4000);
      encrypt(c, n);
      size_t k = pump(c, c.tls ? 1 + vx::size(vx::chance(1, 3) ? 100000 : 2000) : n);
      LOG("%sclient %d sends %zu", I(), c.id, k);
      if (k && c.sent < c.script.size()) seen.split = true;
      break;
    }
    case 1: if (c.peer >= 0) { size_t k = peer_read(c, vx::chance(1, 2) ? 10000000 : vx::size(20000)); LOG("%sclient %d reads %zu", I(), c.id, k); } break;
    case 2:
      if (c.peer < 0 || c.half || c.ended) break;
      append(c);
      if (c.tls && !c.garbage && vx::chance(1, 6)) { LOG("client %d ends the TLS session with that", c.id); c.ended = true; }
      break;
    case 3: // answer one
    {
      std::vector<void *> due;
      for (auto &h : holds) if (h.due) due.push_back(h.rq);
      if (due.size() > 1) seen.interleaved = true;
      if (!due.empty()) answer(vx::pick(due), some_answer());
      break;
    }
    case 4:
      if (crowd && vx::chance(1, 3)) { size_t n = 10 + vx::below(cfg.tls ? 40 : 150); vx::count("crowds of clients"); while (n--) connect_client(); }
      else connect_client();
      break;
    case 5: disconnect(c, (int) vx::below(3)); break;
    case 6: // the application closes
    {
      if (holds.empty()) break;
      Hold h = vx::pick(holds);
      LOG("%sclose %d", I(), h.c->id);
      vx::count("closed by the application");
      mark_closed(*h.c, true);
      Api api;
      srv_close(h.rq);
      break;
    }
    case 7:
    {
      if (holds.empty()) break;
      Hold &h = holds[vx::below(holds.size())];
      if (h.extra && vx::chance(1, 2))
      {
        LOG("%srelease %d", I(), h.c->id);
        if (h.c->closed || h.c->gone) seen.held_past_close = true;
        void *rq = h.rq;
        h.extra--;
        forget(rq);
        Api api;
        srv_release(rq);
      }
      else if (h.extra < 5) { LOG("%shold %d", I(), h.c->id); h.extra++; Api api; srv_hold(h.rq); }
      break;
    }
    case 8: if (vx::chance(1, 2)) shutdown_server(); break;
    case 9: if (!is_open) open_server(); break;
    }
  }
  static void program(Conn *self, unsigned mean)
  {
    while (budget && vx::more(mean)) { budget--; step(self); }
  }

  // --- the end: everything is sent, answered and read ------------------------
  static bool idled;
  static int idle(void) { idled = true; return 0; }
  static void once()
  {
    idled = false;
    in_loop = true;
    reactor_loop_once();
    in_loop = false;
    fill();
  }
  static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec / 1e9; }
  static bool arrived(Conn &c, std::string *why) // the answers given so far
  {
    if (c.gone || c.garbage || c.truncated || c.half || (c.kind == TCP && c.fin()) || c.responses >= c.answers.size()) return true;
    if (why) *why = "only " + std::to_string(c.responses) + " of the " + std::to_string(c.answers.size()) + " responses given so far arrived";
    return false;
  }
  static bool complete(Conn &c, std::string *why)
  {
    char b[300];
    *b = 0;
    latch_bad(c);
    if (c.gone) return true;
    if (c.garbage) return true;
    if (!c.closed && !c.half)
    {
      if (c.sent < c.script.size() && !c.bad_due) snprintf(b, sizeof b, "the server has not taken what the client sends (%zu of %zu bytes)", c.sent, c.script.size());
      else if (c.delivered < c.reqs.size()) snprintf(b, sizeof b, "request %zu of %zu is not delivered", c.delivered, c.reqs.size());
    }
    if (!*b && !c.truncated && !c.half && !(c.kind == TCP && c.fin()))
    {
      size_t want = c.answers.size() + (c.bad_due && !c.closed ? 1 : 0);
      if (c.responses < want) snprintf(b, sizeof b, "only %zu of %zu responses arrived%s", c.responses, want, c.eof ? " before the connection was closed" : "");
    }
    if (!*b && c.fin() && !c.eof) snprintf(b, sizeof b, "the connection is not closed");
    if (why) *why = b;
    return !*b;
  }
  static int fds0;
  static long base_blocks, base_fds;
  static void settle()
  {
    only++;
    bool patient = vx::chance(1, 2); // answers are given when all earlier ones have arrived
    LOG("settle%s", patient ? ", one answer after the other" : "");
    double start = 0;
    bool tcp = false;
    for (auto &c : conns) tcp |= c->kind == TCP;
    vx_idle_grace_ms = 0;
    for (int quiet = 0;;)
    {
      size_t moved = 0;
      for (auto &c : conns)
      {
        encrypt(*c, 10000000);
        moved += pump(*c, 10000000);
        moved += peer_read(*c, 10000000);
        moved += pump(*c, 10000000);
      }
      once();
      bool did = false;
      quiet = !moved && idled ? quiet + 1 : 0;
      bool all = true;
      std::string why;
      int who = -1;
      if (patient) for (auto &c : conns) if (!arrived(*c, &why)) { all = false; who = c->id; break; }
      if (all && (!patient || quiet >= 2)) for (auto &h : holds) if (h.due) { answer(h.rq, some_answer() % 3); did = true; break; }
      if (did) quiet = 0;
      if (all) who = -1;
      if (all)
      for (auto &c : conns) if (!complete(*c, &why)) { all = false; who = c->id; break; }
      if (all && quiet >= 2) break;
      if (quiet >= 4)
      {
        if (tcp)
        {
          if (start == 0) start = now();
          if (now() - start < 20) { vx_idle_grace_ms = 1; continue; }
        }
        vx::fail("client %d: %s, although nothing is left to do", who, why.c_str());
      }
    }
    vx_idle_grace_ms = 0;
    for (auto &c : conns) if (!c->garbage) check_got(*c, true);
    // what is left: connections that are open
    size_t live = 0, peers = 0;
    bool garbage = false;
    for (auto &c : conns) { live += c->live(); peers += c->peer >= 0; garbage |= c->garbage && c->peer >= 0; }
    long fds = vx::open_fds() - fds0 - (long) fillers.size() - (long) peers - (is_open ? 4 : 0); // an open server has a few of its own
    if (!tcp) CHECK(fds <= base_fds + (long) live, "the server has %ld descriptors for %zu connections", fds - base_fds, live);
    if (!tcp && !live && !garbage && holds.empty()) CHECK(vx::vx_live_blocks() <= base_blocks + 6, "%ld blocks of memory are in use when all connections are closed, %ld at the start", vx::vx_live_blocks(), base_blocks);
    only--;
  }

  static inline void run_case(size_t max_conns, size_t max_budget, uint64_t max_bodies)
  {
    conns.clear(); holds.clear(); servers.clear(); closed_fds.clear(); fillers.clear();
    seen = Seen();
    is_open = ever_opened = ctx_set = in_loop = in_api = false;
    only = depth = unique = 0;
    budget = max_budget;
    marathon = vx::chance(1, 100);
    at_once = marathon ? vx::pick(std::vector<unsigned>{600, 990, 999, 1000}) : 600;
    crowd = !marathon && vx::chance(1, 150);
    direct_rare = vx::chance(1, 2);
    conn_budget = crowd ? 200 : max_conns;
    body_budget = max_bodies;
    vx_idle_hook = idle;
    vx_fault_hook = fault;
    vx_write_hook = on_write;
    ERR_clear_error();
    ZeroFd zero;
    null_fd = open("/dev/null", O_RDONLY);
    fds0 = vx::open_fds();
    long ssl0 = ssl_live;
    signal(SIGPIPE, SIG_DFL); // writing to a closed connection is harmless because of the library
    reactor_construct();
    zero.later(fds0);
    token = malloc(1);
    server = srv_new(callback, token);
    base_fds = vx::open_fds() - fds0;
    base_blocks = vx::vx_live_blocks();
    if ((cfg.tls && !cfg.plain) || !vx::chance(1, 10)) open_server();
    size_t rounds = 1 + vx::below(30);
    for (size_t k = 0; k < rounds; k++)
    {
      program(nullptr, 4);
      LOG("loop");
      once();
      if (vx::chance(1, 10)) settle();
    }
    settle();
    if (vx::chance(1, 2))
    { // release what is held, then destruct
      while (!holds.empty()) { Hold &h = holds.back(); void *rq = h.rq; h.extra--; forget(rq); Api api; srv_release(rq); }
    }
    LOG("destruct");
    for (auto &c : conns) mark_closed(*c, true);
    { Api api; srv_destruct(server); }
    if (vx::chance(1, 2)) once();
    for (auto &c : conns) if (!c->garbage && c->kind != TCP) { while (peer_read(*c, 10000000)) ; CHECK(c->eof || c->peer < 0, "client %d: the connection is open although the server is gone", c->id); }
    while (!holds.empty()) { Hold &h = holds.back(); void *rq = h.rq; h.extra--; forget(rq); Api api; srv_release(rq); }
    once();
    srv_free(server);
    reactor_destruct();
    signal(SIGPIPE, SIG_IGN);
    free(token);
    for (auto &c : conns) free_peer(*c);
    for (int i = 1; i <= unique; i++) unlink((std::string(vx::scratch()) + "/s" + std::to_string(i)).c_str());
    vx_fault_hook = nullptr;
    vx_write_hook = nullptr;
    fill();
    for (int f : fillers)
    {
      struct stat a, b;
      CHECK(fstat(f, &a) == 0 && fstat(null_fd, &b) == 0 && a.st_rdev == b.st_rdev, "the server closed a descriptor twice");
      close(f);
    }
    CHECK(vx::open_fds() == fds0, "%d descriptors are left open", vx::open_fds() - fds0);
    close(null_fd);
    CHECK(vx::vx_live_blocks() == 0, "%ld blocks leaked", vx::vx_live_blocks());
    ERR_clear_error();
    CHECK(ssl_live - ssl0 < 40, "%ld blocks of OpenSSL leaked", ssl_live - ssl0);
    struct { const char *name; bool b; } all[] = {
      {"pipelined", seen.pipelined}, {"split", seen.split}, {"deferred", seen.deferred}, {"large response", seen.backlog}, {"several outstanding", seen.interleaved},
      {"invalid after valid", seen.bad_after_good}, {"invalid beside an open connection", seen.bad_beside}, {"answer to a dead connection", seen.dead_answer}, {"held past the close", seen.held_past_close},
      {"shutdown with requests outstanding", seen.shutdown_busy}, {"reopened", seen.reopened}, {"client lost with a request outstanding", seen.dropped_busy}, {"several requests over TLS", seen.tls_many}, {"handshake disturbed", seen.handshake_harm}};
    for (auto &a : all) if (a.b) vx::count(a.name);
    if (seen.answered) vx::count("answered requests", seen.answered);
  }
}
#endif
