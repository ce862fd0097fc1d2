// Model-based testing of streams, plain and over TLS (C25, C26, C27).
//
// Every channel has a stream of the library on one end and a raw descriptor of
// the harness on the other.  The bytes of both directions are a function of a
// seed and the position, so that order, loss, duplication and corruption are
// all visible in every byte.  For TLS the harness speaks with an OpenSSL
// connection over memory buffers and moves the encrypted bytes itself, in
// pieces of its choice.
#ifndef STREAM_MODEL_H
#define STREAM_MODEL_H
#include "common.h"
#include "certs.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>

namespace sm
{
  // which violations are this property's
  struct Cfg { bool tls, plain, bytes, events; };
  extern const Cfg cfg;

  static inline uint8_t pat(uint32_t seed, uint64_t pos)
  {
    uint64_t x = (pos + 1) * 0x9e3779b97f4a7c15u + seed * 0xbf58476d1ce4e5b9u;
    return (uint8_t) (x >> 56 ^ x >> 29);
  }

  enum Kind { UNIX, TCP, PIPE_IN, PIPE_OUT }; // PIPE_IN: the stream reads from a pipe

  struct Ch
  {
    int id = 0;
    stream *s = nullptr;
    void *token = nullptr;
    bool open = false;
    bool wide = false;           // megabytes may be on their way
    int fd = -1;
    Kind kind = UNIX;
    int mask = 0;
    // peer
    int peer = -1;
    bool disconnected = false;   // the peer closed, shut down or reset
    bool gone = false;           // ... in a way after which it does not read
    bool reset = false;
    bool tls = false, client = false;   // client: the stream is the client
    SSL *ssl = nullptr;
    BIO *rb = nullptr, *wb = nullptr;
    std::string cipher;          // encrypted bytes on their way to the stream
    size_t plain_waiting = 0;    // bytes the peer wants to send once its handshake is done
    bool spoiled = false;        // something other than TLS was sent: nothing needs to arrive any more
    bool garbage = false;        // ... from the start: no data may ever appear
    bool ended = false;          // the peer ends its side of the TLS session once it sent what waits, and goes on reading
    // towards the stream
    uint32_t in_seed = 0;
    uint64_t in_sent = 0, consumed = 0, visible = 0, announced = 0;
    // (a stream whose TLS failed does not read: over TCP the peer's disconnect may wait behind unread bytes for long)
    // from the stream
    uint32_t out_seed = 0;
    uint64_t out_written = 0, out_flushed = 0, out_got = 0;
    bool notify = false;
    bool close_reported = false;
    bool read_pending = false;
  };

  static std::vector<std::unique_ptr<Ch>> chs;
  static std::map<void *, Ch *> by_token;
  static std::vector<void *> tokens;
  static std::vector<int> fillers;
  static bool in_loop;
  static size_t budget;
  static uint64_t bytes_budget;
  static uint32_t seeds;
  static SSL_CTX *server_ctx, *big_server_ctx, *client_ctx, *server12_ctx;
  static bool partial_seen, closed_in_callback, disconnected_with_output, backlog_seen;
  static int only;               // settle() ignores drawn behaviour of callbacks
  static const char *I() { return in_loop ? "    " : "  "; }

  static long ssl_live;
  static void *ssl_malloc(size_t n, const char *, int) { if (!n) return nullptr; __atomic_add_fetch(&ssl_live, 1, __ATOMIC_SEQ_CST); return malloc(n); }
  static void ssl_free(void *p, const char *, int) { if (p) __atomic_sub_fetch(&ssl_live, 1, __ATOMIC_SEQ_CST); free(p); }
  static void *ssl_realloc(void *p, size_t n, const char *f, int l)
  {
    if (!p) return ssl_malloc(n, f, l);
    if (!n) { ssl_free(p, f, l); return nullptr; }
    return realloc(p, n);
  }
  static SSL_CTX *context(const SSL_METHOD *m, size_t padding, int max)
  {
    SSL_CTX *c = SSL_CTX_new(m);
    SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF);
    if (max) SSL_CTX_set_max_proto_version(c, max);
    if (m == TLS_server_method())
    {
      EVP_PKEY *k = certs::key(0);
      X509 *x = certs::cert(k, 0, padding);
      SSL_CTX_use_certificate(c, x);
      SSL_CTX_use_PrivateKey(c, k);
      X509_free(x);
      EVP_PKEY_free(k);
    }
    return c;
  }
  static inline void init()
  {
    if (!cfg.tls) return;
    CRYPTO_set_mem_functions(ssl_malloc, ssl_realloc, ssl_free);
    server_ctx = context(TLS_server_method(), 0, 0);
    big_server_ctx = context(TLS_server_method(), 60000, 0);
    server12_ctx = context(TLS_server_method(), 0, TLS1_2_VERSION);
    client_ctx = context(TLS_client_method(), 0, 0);
    SSL_CTX_set_max_cert_list(client_ctx, 1 << 20);
    for (SSL_CTX *sc : {server_ctx, server12_ctx, big_server_ctx})
    { // what OpenSSL allocates once
      SSL *s = SSL_new(sc), *c = SSL_new(client_ctx);
      BIO *a, *b;
      BIO_new_bio_pair(&a, 1 << 18, &b, 1 << 18);
      SSL_set_bio(s, a, a); SSL_set_bio(c, b, b);
      SSL_set_accept_state(s); SSL_set_connect_state(c);
      for (int i = 0; i < 20; i++) { SSL_do_handshake(c); SSL_do_handshake(s); }
      SSL_free(s); SSL_free(c);
    }
    ERR_clear_error();
  }

  static void callback(reactor_event *);
  static void write_some(Ch &, size_t, bool);
  static void construct(Ch &c)
  {
    c.s = (stream *) malloc(sizeof(stream));
    memset((void *) c.s, 0xdd, sizeof *c.s);
    c.token = malloc(1);
    tokens.push_back(c.token);
    by_token[c.token] = &c;
    stream_construct(c.s, callback, c.token);
    c.open = false;
  }
  static void tcp_pair(int p[2])
  {
    int l = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a;
    CHECK(bind(l, (sockaddr *) &a, n) == 0 && listen(l, 1) == 0 && getsockname(l, (sockaddr *) &a, &n) == 0, "tcp: %m");
    p[1] = socket(AF_INET, SOCK_STREAM, 0);
    CHECK(connect(p[1], (sockaddr *) &a, n) == 0, "connect: %m");
    p[0] = accept(l, nullptr, nullptr);
    close(l);
    for (int i = 0; i < 2; i++) { fcntl(p[i], F_SETFL, O_NONBLOCK); int one = 1; setsockopt(p[i], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
  }
  static void open_it(Ch &c)
  {
    int p[2];
    c.tls = cfg.tls && (!cfg.plain || vx::chance(1, 3));
    c.kind = c.tls ? (Kind) vx::weighted({10, 2}) : (Kind) vx::weighted({12, 1, 2, 2});
    if (c.kind == UNIX) CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "socketpair");
    if (c.kind == TCP) tcp_pair(p);
    if (c.kind == PIPE_IN) CHECK(pipe2(p, O_NONBLOCK) == 0, "pipe");
    if (c.kind == PIPE_OUT) { CHECK(pipe2(p, O_NONBLOCK) == 0, "pipe"); std::swap(p[0], p[1]); }
    c.wide = cfg.bytes && (c.kind == UNIX || c.kind == PIPE_IN) && vx::chance(1, 150);
    if (c.wide)
    {
      int n = 4 << 20;
      bytes_budget += 4000000;
      vx::count("wide channels");
      if (c.kind == PIPE_IN) fcntl(p[0], F_SETPIPE_SZ, 1 << 20);
      else for (int i = 0; i < 2; i++) setsockopt(p[i], SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
    }
    else if (c.kind == UNIX && vx::chance(2, 3))
    { // small buffers
      int n = (int) (1 + vx::size(20000));
      setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
      n = (int) (1 + vx::size(20000));
      setsockopt(p[1], SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
    }
    if (c.kind == TCP && vx::chance(1, 2))
    { // less on its way to a slow peer
      int n = (int) (1 + vx::size(20000));
      setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
    }
    if (c.kind == PIPE_OUT && vx::chance(1, 2)) fcntl(p[0], F_SETPIPE_SZ, 4096);
    c.fd = p[0]; c.peer = p[1];
    c.mask = c.kind == PIPE_OUT || (!c.tls && c.kind != PIPE_IN && vx::chance(1, 12)) ? 0 : STREAM_READ;
    c.disconnected = c.gone = c.reset = c.notify = c.close_reported = c.spoiled = c.garbage = c.ended = false;
    c.in_sent = c.consumed = c.visible = c.announced = c.out_written = c.out_flushed = c.out_got = 0;
    c.plain_waiting = 0;
    c.cipher.clear();
    c.in_seed = ++seeds; c.out_seed = ++seeds;
    SSL_CTX *ctx = nullptr;
    if (c.tls)
    {
      c.client = vx::chance(1, 3);
      SSL_CTX *sc = vx::pick(std::vector<SSL_CTX *>{server_ctx, server12_ctx, big_server_ctx});
      ctx = c.client ? client_ctx : sc;
      c.ssl = SSL_new(c.client ? sc : client_ctx);
      c.rb = BIO_new(BIO_s_mem()); c.wb = BIO_new(BIO_s_mem());
      SSL_set_bio(c.ssl, c.rb, c.wb);
      if (c.client) SSL_set_accept_state(c.ssl); else SSL_set_connect_state(c.ssl);
      if (vx::chance(1, 6)) { c.garbage = c.spoiled = true; vx::count("garbage instead of TLS"); }
    }
    static const char *kinds[] = {"unix", "tcp", "pipe in", "pipe out"};
    LOG("%sopen %d on %d (%s%s%s)", I(), c.id, c.fd, kinds[c.kind], c.tls ? c.client ? " tls client" : " tls server" : "", c.garbage ? " garbage" : "");
    if (c.kind != PIPE_IN && vx::chance(1, 5))
    { // what was written before goes out once it is open
      write_some(c, vx::size(vx::chance(1, 3) ? 100000 : 300), vx::chance(1, 4));
      c.out_flushed = c.out_written;
      if (vx::chance(1, 4)) { LOG("%snotify %d", I(), c.id); c.notify = true; stream_notify(c.s); }
      vx::count("written before opening");
    }
    stream_open(c.s, c.fd, c.mask, ctx);
    c.open = true;
    CHECK(stream_read(c.s).size == 0, "a stream that was just opened has %zu bytes of input", stream_read(c.s).size);
    if (c.tls && c.client) stream_flush(c.s); // starts the handshake
  }
  static void free_ssl(Ch &c) { if (c.ssl) { SSL_free(c.ssl); c.ssl = nullptr; } }
  static void close_peer(Ch &c, bool reset = false)
  {
    if (c.peer >= 0)
    {
      if (reset) { linger l = {1, 0}; setsockopt(c.peer, SOL_SOCKET, SO_LINGER, &l, sizeof l); c.reset = true; }
      close(c.peer);
    }
    c.peer = -1;
  }
  static void closed(Ch &c)
  {
    CHECK(fcntl(c.fd, F_GETFD) == -1, "the descriptor of a closed stream is open");
    fillers.push_back(dup(fillers[0])); // takes the number
    if (in_loop) closed_in_callback = true;
    close_peer(c, c.kind == TCP);
    free_ssl(c);
    c.open = false;
    c.fd = -1;
  }
  static void close_it(Ch &c)
  {
    LOG("%sclose %d", I(), c.id);
    stream_close(c.s);
    CHECK(stream_read(c.s).size == 0, "a closed stream has %zu bytes of input", stream_read(c.s).size);
    if (c.open) closed(c);
  }
  static void destroy(Ch &c)
  {
    LOG("%sdestroy %d", I(), c.id);
    stream_destruct(c.s);
    if (c.open) closed(c);
    memset((void *) c.s, 0xee, sizeof *c.s);
    free(c.s);
    c.s = nullptr;
    by_token.erase(c.token);
  }

  // --- what can be read ---------------------------------------------------------
  static void check_input(Ch &c, bool full = false)
  {
    if (!c.s || !c.open) return;
    data d = stream_read(c.s);
    uint64_t v = c.consumed + d.size, from = c.consumed;
    CHECK(v >= c.visible, "stream %d: input that was visible is gone: %lu bytes, were %lu", c.id, d.size, c.visible - c.consumed);
    CHECK(v <= c.in_sent, "stream %d: %lu bytes received, the peer sent %lu", c.id, v, c.in_sent);
    const uint8_t *p = (const uint8_t *) d.base;
    auto check = [&](uint64_t a, uint64_t b) {
      for (uint64_t i = a; i < b; i++) CHECK(p[i - from] == pat(c.in_seed, i), "stream %d: input byte %lu is wrong", c.id, i);
    };
    if (full || d.size < 8192) check(from, v);
    else { check(from, from + 2048); check(std::max(from, c.visible > 2048 ? c.visible - 2048 : 0), v); }
    c.visible = v;
  }
  static void consume(Ch &c, size_t n)
  {
    stream_consume(c.s, n);
    c.consumed += n;
    check_input(c);
  }

  // --- the peer --------------------------------------------------------------
  static std::string some_in(Ch &c, size_t n)
  {
    std::string s(n, 0);
    for (size_t i = 0; i < n; i++) s[i] = (char) pat(c.in_seed, c.in_sent + i);
    return s;
  }
  static void take_cipher(Ch &c)
  {
    char b[16384];
    int n;
    while ((n = BIO_read(c.wb, b, sizeof b)) > 0) if (!c.garbage) c.cipher.append(b, (size_t) n);
  }
  static void push_plain(Ch &c)
  {
    while (c.plain_waiting && !c.spoiled)
    {
      std::string s = some_in(c, std::min<size_t>(c.plain_waiting, 40000));
      ERR_clear_error();
      int n = SSL_write(c.ssl, s.data(), (int) s.size());
      if (n <= 0) break;
      c.in_sent += (size_t) n;
      c.plain_waiting -= (size_t) n;
    }
    if (!c.spoiled && !SSL_is_init_finished(c.ssl)) { ERR_clear_error(); SSL_do_handshake(c.ssl); }
    if (c.ended && !c.spoiled && !c.plain_waiting && SSL_is_init_finished(c.ssl) && !SSL_get_shutdown(c.ssl)) { ERR_clear_error(); SSL_shutdown(c.ssl); vx::count("the peer ends the TLS session"); }
    if (!c.spoiled || c.garbage) take_cipher(c);
  }
  static size_t raw_write(Ch &c, const std::string &s)
  {
    if (s.empty() || c.peer < 0) return 0;
    ssize_t k = c.kind == PIPE_IN ? write(c.peer, s.data(), s.size()) : send(c.peer, s.data(), s.size(), MSG_NOSIGNAL);
    return k > 0 ? (size_t) k : 0;
  }
  // move up to n encrypted bytes to the stream
  static size_t pump(Ch &c, size_t n)
  {
    if (!c.tls || c.peer < 0) return 0;
    if (!c.garbage) push_plain(c);
    if (c.cipher.empty()) return 0;
    size_t k = raw_write(c, c.cipher.substr(0, n));
    c.cipher.erase(0, k);
    return k;
  }
  static void peer_write(Ch &c, size_t n)
  {
    if (c.peer < 0 || c.kind == PIPE_OUT || c.disconnected) return;
    if (!c.tls)
    {
      size_t k = raw_write(c, some_in(c, n));
      c.in_sent += k;
      LOG("%speer of %d writes %zu", I(), c.id, k);
      return;
    }
    if (c.garbage) { c.cipher += vx::pattern(n); return; }
    if (c.ended) return;
    c.plain_waiting += n;
    push_plain(c);
    LOG("%speer of %d writes %zu, %zu encrypted bytes wait", I(), c.id, n, c.cipher.size());
  }
  static void got_plain(Ch &c, const uint8_t *b, size_t n)
  {
    CHECK(c.out_got + n <= c.out_written, "stream %d: the peer received %lu bytes, only %lu were written", c.id, c.out_got + n, c.out_written);
    for (size_t i = 0; i < n; i++) CHECK(b[i] == pat(c.out_seed, c.out_got + i), "stream %d: the peer received a wrong byte at %lu", c.id, c.out_got + i);
    c.out_got += n;
  }
  // read up to n bytes from the descriptor; returns what was moved
  static size_t peer_read(Ch &c, size_t n)
  {
    if (c.peer < 0 || c.kind == PIPE_IN) return 0;
    static uint8_t b[65536], d[65536];
    size_t moved = 0;
    while (n)
    {
      ssize_t k = read(c.peer, b, std::min(n, sizeof b));
      if (k <= 0) break;
      moved += (size_t) k;
      n -= (size_t) k;
      if (!c.tls) got_plain(c, b, (size_t) k);
      else if (!c.garbage)
      {
        BIO_write(c.rb, b, (int) k);
        int m;
        ERR_clear_error();
        while ((m = SSL_read(c.ssl, d, sizeof d)) > 0) got_plain(c, d, (size_t) m);
        CHECK(c.spoiled || SSL_get_error(c.ssl, m) != SSL_ERROR_SSL || c.disconnected, "stream %d: the peer cannot decrypt what the stream sent (%s)", c.id, ERR_error_string(ERR_peek_error(), nullptr));
        push_plain(c);
      }
    }
    return moved;
  }
  static void disconnect(Ch &c, int how) // 0: close, 1: shut down, 2: reset
  {
    if (c.peer < 0 || c.disconnected) return;
    static const char *names[] = {"closes", "shuts down", "resets"};
    if (how && c.kind != UNIX && c.kind != TCP) how = 0;
    if (how == 2 && c.kind != TCP) how = 0;
    LOG("%speer of %d %s", I(), c.id, names[how]);
    vx::count(names[how]);
    if (how == 1) shutdown(c.peer, SHUT_WR);
    else
    {
      if (c.out_written > c.out_got) disconnected_with_output = true;
      close_peer(c, how == 2);
      if (c.kind == TCP) c.reset = true; // with unread or later output the system resets the connection, and the peer's own last bytes may be lost
      c.gone = true;
    }
    c.disconnected = true;
  }

  // --- operations ------------------------------------------------------------
  static void write_some(Ch &c, size_t n, bool allocate)
  {
    if (c.kind == PIPE_IN) return;
    if (n > bytes_budget) n = bytes_budget;
    bytes_budget -= n;
    vx::Exact e(std::string(n, 0));
    for (size_t i = 0; i < n; i++) e.p[i] = (char) pat(c.out_seed, c.out_written + i);
    LOG("%s%s %zu to %d", I(), allocate ? "allocate" : "write", n, c.id);
    if (allocate) { void *p = stream_allocate(c.s, n); if (n) memcpy(p, e.p, n); }
    else stream_write(c.s, dat(e));
    c.out_written += n;
  }
  static void flush(Ch &c)
  {
    LOG("%sflush %d", I(), c.id);
    c.out_flushed = c.out_written;
    stream_flush(c.s);
    if (!c.tls && c.kind == UNIX && c.peer >= 0)
    {
      int n = 0;
      ioctl(c.peer, FIONREAD, &n);
      if (c.out_got + (uint64_t) n < c.out_written) partial_seen = true;
    }
  }
  static size_t some_size(Ch &c)
  {
    if (c.wide && vx::chance(1, 4)) return vx::chance(1, 2) ? vx::size(4000000) : 1000000 + vx::below(3000000);
    return vx::chance(1, 12) ? vx::size(400000) : vx::size(vx::chance(1, 2) ? 300 : 40000);
  }

  static void step(Ch &c)
  {
    if (!c.s) { construct(c); return; }
    if (!c.open)
    {
      switch (vx::weighted({8, 1, 1}))
      {
      case 0: open_it(c); break;
      case 1: close_it(c); break;
      case 2: destroy(c); break;
      }
      return;
    }
    unsigned rare = cfg.events ? 3 : 1;
    switch (vx::weighted({8, 5, 5, 6, 4, 4, c.tls ? 6u : 0u, cfg.events ? 5u : 1u, rare, c.tls ? 3u : 1u, rare, rare}))
    {
    case 0: { bool a = vx::chance(1, 4); size_t n = some_size(c); write_some(c, n, a); if (vx::chance(1, 2)) flush(c); break; }
    case 1: flush(c); break;
    case 2: peer_write(c, some_size(c)); break;
    case 3: { size_t k = peer_read(c, vx::chance(1, 3) ? 10000000 : some_size(c)); LOG("%speer of %d reads %zu", I(), c.id, k); break; }
    case 4:
    {
      size_t n = (size_t) (c.visible - c.consumed), k = vx::chance(1, 3) ? n : std::min(n, some_size(c));
      LOG("%sconsume %zu of %zu from %d", I(), k, n, c.id);
      if (k < n) backlog_seen = true;
      consume(c, k);
      break;
    }
    case 5: { size_t n = vx::size(300); write_some(c, n, false); flush(c); break; }
    case 6:
    {
      if (!c.tls) break;
      size_t n = vx::chance(1, 3) ? 10000000 : 1 + vx::size(3000), k = pump(c, n);
      LOG("%s%zu encrypted bytes to %d", I(), k, c.id);
      break;
    }
    case 7: if (c.kind != PIPE_IN) { LOG("%snotify %d", I(), c.id); c.notify = true; stream_notify(c.s); } break;
    case 8: disconnect(c, (int) vx::below(3)); break;
    case 9:
      if (!c.tls || c.spoiled) break;
      if (vx::chance(1, 2))
      {
        LOG("%speer of %d ends the TLS session", I(), c.id);
        c.ended = true;
        push_plain(c);
      }
      else if (vx::chance(1, 4))
      { // the peer's TLS is followed by something else
        LOG("%speer of %d goes mad", I(), c.id);
        pump(c, vx::size(2000));
        c.spoiled = true;
        c.cipher = vx::pattern(1 + vx::size(3000));
        c.plain_waiting = 0;
        vx::count("garbage inside TLS");
      }
      break;
    case 10: close_it(c); if (vx::chance(1, 2)) open_it(c); break;
    case 11: if (vx::chance(1, 2)) destroy(c); break;
    }
  }
  static void program(Ch *self, unsigned mean)
  {
    while (budget && vx::more(mean))
    {
      budget--;
      step(self && vx::chance(2, 3) ? *self : *chs[vx::below(chs.size())]);
    }
  }

  static void callback(reactor_event *e)
  {
    CHECK(in_loop, "a stream reports outside of the loop");
    auto it = by_token.find(e->state);
    CHECK(it != by_token.end(), "a destroyed stream reports event %d", e->type);
    Ch &c = *it->second;
    CHECK(c.open, "a closed stream reports event %d", e->type);
    check_input(c);
    switch (e->type)
    {
    case STREAM_READ:
      LOG("  read %d: %lu bytes", c.id, c.visible - c.consumed);
      c.announced = c.visible;
      if (vx::chance(1, 3)) consume(c, c.visible - c.consumed);
      break;
    case STREAM_WRITE:
      LOG("  write %d", c.id);
      vx::count("write notification");
      if (cfg.events)
      {
        CHECK(c.notify, "stream %d: a write notification that was not requested (or reported before)", c.id);
        if (!c.gone && !c.spoiled)
        {
          if (!c.tls && c.kind != TCP)
          {
            int n = 0;
            ioctl(c.peer, FIONREAD, &n);
            CHECK(c.out_got + (uint64_t) n == c.out_written, "stream %d: a write notification while %lu of %lu bytes have been handed to the system", c.id, c.out_got + (uint64_t) n, c.out_written);
          }
          else if (c.kind == UNIX)
          {
            while (peer_read(c, 10000000)) ;
            CHECK(c.out_got == c.out_written, "stream %d: a write notification while %lu of %lu bytes have been handed to the system", c.id, c.out_got, c.out_written);
          }
        }
      }
      c.notify = false;
      break;
    case STREAM_CLOSE:
      LOG("  close %d", c.id);
      vx::count("close event");
      if (cfg.events)
      {
        CHECK(c.disconnected, "stream %d: a close event, but the peer has not disconnected", c.id);
        if (!c.tls && !c.reset && c.mask & STREAM_READ)
          CHECK(c.visible == c.in_sent && c.announced == c.visible, "stream %d: a close event before the data that preceded it: %lu of %lu bytes available, %lu announced", c.id, c.visible, c.in_sent, c.announced);
      }
      c.close_reported = true;
      break;
    default: vx::fail("unknown event %d", e->type);
    }
    if (!only) program(&c, 1);
  }

  static bool idled;
  static int idle(void) { idled = true; return 0; }
  static void once()
  {
    idled = false;
    in_loop = true;
    reactor_loop_once();
    in_loop = false;
    for (auto &c : chs) check_input(*c);
  }
  static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec / 1e9; }

  // the disconnect has come through (it waits behind data that a stream which does not read has no room for)
  static bool knows(Ch &c)
  {
    struct pollfd p = {c.fd, POLLRDHUP, 0};
    return poll(&p, 1, 0) == 1 && p.revents & (POLLRDHUP | POLLHUP | POLLERR);
  }
  static bool complete(Ch &c, std::string *why)
  {
    char b[200];
    *b = 0;
    if (!c.s || !c.open) return true;
    bool in_due = c.mask & STREAM_READ && !c.spoiled && !c.reset && !(c.tls && c.disconnected);
    bool out_due = !c.gone && !c.spoiled && !(c.tls && c.disconnected);
    if (cfg.bytes && in_due && (c.visible < c.in_sent || c.plain_waiting)) snprintf(b, sizeof b, "only %lu of %lu bytes the peer sent can be read", c.visible, c.in_sent + c.plain_waiting);
    else if (cfg.bytes && in_due && c.announced < c.visible) snprintf(b, sizeof b, "%lu bytes can be read, but only %lu were announced", c.visible, c.announced);
    else if (cfg.bytes && out_due && c.out_got < c.out_flushed) snprintf(b, sizeof b, "the peer received only %lu of %lu bytes that were flushed", c.out_got, c.out_flushed);
    else if (cfg.events && c.notify && out_due) snprintf(b, sizeof b, "a requested write notification is missing");
    else if (cfg.events && c.disconnected && !c.close_reported && !(c.kind == TCP && (c.spoiled || !knows(c)))) snprintf(b, sizeof b, "the peer's disconnect is not reported");
    if (why) *why = b;
    return !*b;
  }
  // the peers read everything and nothing else happens: everything must arrive
  static void settle()
  {
    only++;
    LOG("settle");
    double start = 0;
    bool tcp = false;
    for (auto &c : chs) tcp |= c->open && c->kind == TCP;
    vx_idle_grace_ms = 0;
    for (int quiet = 0;;)
    {
      size_t moved = 0;
      uint64_t seen = 0;
      for (auto &c : chs)
      {
        seen += c->visible;
        if (c->open) { moved += pump(*c, 10000000); moved += peer_read(*c, 10000000); moved += pump(*c, 10000000); }
      }
      once();
      for (auto &c : chs) seen -= c->visible;
      quiet = moved == 0 && idled && seen == 0 ? quiet + 1 : 0;
      bool all = true;
      std::string why;
      Ch *who = nullptr;
      for (auto &c : chs) if (!complete(*c, &why)) { all = false; who = c.get(); break; }
      if (all && quiet >= 1) break;
      if (quiet >= 3)
      {
        if (tcp)
        { // the network may take its time
          if (start == 0) start = now();
          if (now() - start < 20) { vx_idle_grace_ms = 1; continue; }
        }
        vx::fail("stream %d: %s, although the peer reads and nothing is left to do", who->id, why.c_str());
      }
    }
    vx_idle_grace_ms = 0;
    for (auto &c : chs) check_input(*c, true);
    only--;
  }

  static inline void run_case(size_t channels, size_t max_budget, uint64_t max_bytes)
  {
    chs.clear(); by_token.clear(); tokens.clear();
    ZeroFd zero;
    fillers.assign(1, open("/dev/null", O_RDONLY));
    in_loop = false; only = 0; seeds = (uint32_t) vx::below(1000) * 1000;
    partial_seen = closed_in_callback = disconnected_with_output = backlog_seen = false;
    budget = max_budget;
    bytes_budget = max_bytes;
    vx_idle_hook = idle;
    ERR_clear_error();
    int fds0 = vx::open_fds();
    long ssl0 = ssl_live;
    signal(SIGPIPE, SIG_DFL); // writing to a closed connection is harmless because of the library
    reactor_construct();
    zero.later(fds0);
    size_t n = 1 + vx::below(channels);
    for (size_t i = 0; i < n; i++) { chs.emplace_back(new Ch); chs[i]->id = (int) i; construct(*chs[i]); if (vx::chance(9, 10)) open_it(*chs[i]); }
    size_t rounds = 1 + vx::below(30);
    for (size_t k = 0; k < rounds; k++)
    {
      program(nullptr, 4);
      LOG("loop");
      once();
      if (vx::chance(1, 10)) settle();
    }
    settle();
    for (auto &c : chs) if (c->s) destroy(*c);
    once();
    reactor_destruct();
    signal(SIGPIPE, SIG_IGN);
    for (auto t : tokens) free(t);
    CHECK(vx::open_fds() == fds0 + (int) fillers.size() - 1, "%d descriptors are open at the end, expected %d", vx::open_fds(), fds0 + (int) fillers.size() - 1);
    for (int f : fillers) { CHECK(fcntl(f, F_GETFD) != -1, "a descriptor of the harness was closed by the library"); close(f); }
    CHECK(vx::vx_live_blocks() == 0, "%ld blocks leaked", vx::vx_live_blocks());
    ERR_clear_error();
    CHECK(ssl_live - ssl0 < 40, "%ld blocks of OpenSSL leaked", ssl_live - ssl0);
    if (partial_seen) vx::count("case with a partial write");
    if (closed_in_callback) vx::count("case with a close in a callback");
    if (disconnected_with_output) vx::count("case with a disconnect during output");
    if (backlog_seen) vx::count("case with unconsumed input");
  }
}
#endif
