// C24: sockets from resolved addresses and TLS server contexts are usable, or there is a clean failure.
#include "common.h"
#include "certs.h"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C24", "socket and TLS context helpers return usable objects or fail cleanly", 40000, 1200000,
  "a case is one of: a socket made from a generated address (IPv4, IPv6, Unix, stream or datagram, passive or active, free, occupied, absent, listening or refusing targets), with an error injected into one system call in a "
  "third of the cases, judged by what the resulting socket does; a name resolved, compared with getaddrinfo; a TLS server context from generated certificate and key files (matching or not, of three key types, damaged, "
  "truncated, swapped, joined, missing), judged by parsing the files separately and by a handshake; non-trivial: a failure of a step, or a socket or context that was used successfully",
  20, 60, true, "failures of setsockopt are not injected"};

// --- what OpenSSL holds ------------------------------------------------------
static long ssl_live;
static void *ssl_malloc(size_t n, const char *, int) { if (!n) return nullptr; __atomic_add_fetch(&ssl_live, 1, __ATOMIC_SEQ_CST); return malloc(n); }
static void ssl_free(void *p, const char *, int) { if (p) __atomic_sub_fetch(&ssl_live, 1, __ATOMIC_SEQ_CST); free(p); }
static void *ssl_realloc(void *p, size_t n, const char *f, int l)
{
  if (!p) return ssl_malloc(n, f, l);
  if (!n) { ssl_free(p, f, l); return nullptr; }
  return realloc(p, n);
}

static EVP_PKEY *keys[6];
static X509 *xs[6];
static std::string key_pem[6], cert_pem[6];
static bool ipv6;

extern "C" void vx_worker_init(void)
{
  CRYPTO_set_mem_functions(ssl_malloc, ssl_realloc, ssl_free);
  for (int i = 0; i < 6; i++)
  {
    keys[i] = certs::key(i % 3);
    xs[i] = certs::cert(keys[i], i % 3);
    key_pem[i] = certs::pem(keys[i]);
    cert_pem[i] = certs::pem(xs[i]);
  }
  int fd = socket(AF_INET6, SOCK_STREAM, 0);
  sockaddr_in6 a = {};
  a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback;
  ipv6 = fd >= 0 && bind(fd, (sockaddr *) &a, sizeof a) == 0;
  if (fd >= 0) close(fd);
}

// --- sockets -----------------------------------------------------------------
static const char *fail_call;
static int fail_errno, failed;
static std::vector<int> closed_fds;
static int fault(const char *call, int fd)
{
  if (!strcmp(call, "close")) { closed_fds.push_back(fd); return 0; }
  if (fail_call && !strcmp(call, fail_call)) { failed++; return fail_errno; }
  return 0;
}
static std::set<addrinfo *> made;
static int unfake(addrinfo *a)
{
  if (!made.erase(a)) return 0;
  while (a) { addrinfo *n = a->ai_next; free(a->ai_addr); free(a); a = n; }
  return 1;
}
struct Address { sockaddr_storage s = {}; socklen_t n = 0; };
static addrinfo *ai(const Address &a, int family, int type, int protocol, int flags)
{
  addrinfo *r = (addrinfo *) calloc(1, sizeof *r);
  r->ai_family = family; r->ai_socktype = type; r->ai_protocol = protocol; r->ai_flags = flags;
  r->ai_addr = (sockaddr *) malloc(a.n);
  memcpy(r->ai_addr, &a.s, a.n);
  r->ai_addrlen = a.n;
  return r;
}
static Address ip(int family, const char *host, int port)
{
  Address a;
  if (family == AF_INET) { auto *s = (sockaddr_in *) &a.s; s->sin_family = AF_INET; inet_pton(AF_INET, host, &s->sin_addr); s->sin_port = htons((uint16_t) port); a.n = sizeof *s; }
  else { auto *s = (sockaddr_in6 *) &a.s; s->sin6_family = AF_INET6; inet_pton(AF_INET6, host, &s->sin6_addr); s->sin6_port = htons((uint16_t) port); a.n = sizeof *s; }
  return a;
}
static Address path(const std::string &p)
{
  Address a;
  auto *s = (sockaddr_un *) &a.s;
  s->sun_family = AF_UNIX;
  strncpy(s->sun_path, p.c_str(), sizeof s->sun_path - 1);
  a.n = sizeof *s;
  return a;
}
static Address name_of(int fd) { Address a; a.n = sizeof a.s; getsockname(fd, (sockaddr *) &a.s, &a.n); return a; }
static Address peer_of(int fd) { Address a; a.n = sizeof a.s; if (getpeername(fd, (sockaddr *) &a.s, &a.n) != 0) a.n = 0; return a; }
static int port_of(const Address &a) { return ntohs(a.s.ss_family == AF_INET ? ((sockaddr_in *) &a.s)->sin_port : ((sockaddr_in6 *) &a.s)->sin6_port); }
static bool same_host(const Address &a, const Address &b)
{
  if (a.s.ss_family != b.s.ss_family) return false;
  if (a.s.ss_family == AF_INET) return !memcmp(&((sockaddr_in *) &a.s)->sin_addr, &((sockaddr_in *) &b.s)->sin_addr, 4);
  if (a.s.ss_family == AF_INET6) return !memcmp(&((sockaddr_in6 *) &a.s)->sin6_addr, &((sockaddr_in6 *) &b.s)->sin6_addr, 16);
  return !strcmp(((sockaddr_un *) &a.s)->sun_path, ((sockaddr_un *) &b.s)->sun_path);
}
static bool same_address(const Address &a, const Address &b) { return same_host(a, b) && (a.s.ss_family == AF_UNIX || port_of(a) == port_of(b)); }
static void reset(int fd) { linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(fd); }

static void socket_case()
{
  static uint64_t serial;
  std::string file = std::string(vx::scratch()) + "/s" + std::to_string(serial++ % 4);
  unlink(file.c_str());
  bool passive = vx::chance(1, 2);
  int family = vx::pick(std::vector<int>{AF_INET, AF_INET, ipv6 ? AF_INET6 : AF_INET, AF_UNIX});
  int type = vx::chance(1, 6) ? SOCK_DGRAM : SOCK_STREAM;
  int protocol = family == AF_UNIX || vx::chance(1, 2) ? 0 : type == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP;
  if (vx::chance(1, 12)) protocol = vx::pick(std::vector<int>{IPPROTO_UDPLITE, IPPROTO_MPTCP, IPPROTO_TCP, IPPROTO_UDP, 255});
  int twin = socket(family, type, protocol), the_protocol = 0; // what the system says about it
  if (twin >= 0) { socklen_t l = sizeof the_protocol; getsockopt(twin, SOL_SOCKET, SO_PROTOCOL, &the_protocol, &l); close(twin); }
  const char *host = family == AF_INET ? "127.0.0.1" : "::1";
  // 0: something listens there (active) / it is free (passive), 1: nothing there / occupied, 2: not this machine's address
  int target = (int) vx::weighted({6, 2, 1});
  int listener = -1;
  Address a;
  // connections to an earlier listener still linger
  bool lingering = passive && family != AF_UNIX && type == SOCK_STREAM && target == 0 && vx::chance(1, 60);
  if (target == 2) a = family == AF_UNIX ? path(std::string(vx::scratch()) + "/no/such") : ip(family, family == AF_INET ? "192.0.2.7" : "2001:db8::7", 9);
  else
  {
    a = family == AF_UNIX ? path(file) : ip(family, host, 0);
    if (lingering)
    {
      int l = socket(family, type, 0), on = 1;
      setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
      CHECK(bind(l, (sockaddr *) &a.s, a.n) == 0 && listen(l, 8) == 0, "bind: %m");
      a = name_of(l);
      int c = socket(family, type, 0), s;
      CHECK(connect(c, (sockaddr *) &a.s, a.n) == 0 && (s = accept(l, nullptr, nullptr)) >= 0, "connect: %m");
      close(s); close(c); close(l);
      vx::count("connections linger");
    }
    if (!passive || target == 1)
    {
      listener = socket(family, type, 0);
      CHECK(bind(listener, (sockaddr *) &a.s, a.n) == 0, "bind: %m");
      if (type == SOCK_STREAM && (target == 0 || passive)) CHECK(listen(listener, 8) == 0, "listen: %m");
      a = name_of(listener);
      if (family == AF_UNIX) a = path(file);
    }
  }
  bool necessary = false; // the system itself makes a necessary step fail
  if (passive) necessary = target != 0 || type == SOCK_DGRAM;
  if (twin < 0) necessary = true;
  fail_call = nullptr;
  if (vx::chance(1, 3))
  {
    static const int errs[] = {EMFILE, EACCES, EADDRINUSE, ENOBUFS, EAFNOSUPPORT, EINVAL};
    std::vector<const char *> calls = {"socket"};
    if (passive) { calls.push_back("bind"); calls.push_back("listen"); }
    fail_call = vx::pick(calls);
    fail_errno = errs[vx::below(6)];
  }
  int flags = (passive ? AI_PASSIVE : 0) | (vx::chance(1, 3) ? AI_NUMERICHOST : 0) | (vx::chance(1, 4) ? AI_CANONNAME : 0);
  addrinfo *list = ai(a, family, type, protocol, flags);
  if (vx::chance(1, 4)) list->ai_next = ai(ip(AF_INET, "192.0.2.1", 1), AF_INET, SOCK_STREAM, 0, flags); // only the first counts
  made.insert(list);
  vx_addrinfo_live++;
  int before = vx::open_fds();
  bool zero = vx::chance(1, 8);
  int saved = -1;
  if (zero) { saved = fcntl(0, F_DUPFD, 100); close(0); if (saved >= 0) before--; else before = vx::open_fds(); }
  before = vx::open_fds();
  closed_fds.clear();
  failed = 0;
  LOG("net_socket family %d type %d protocol %d %s target %d, %s fails with %d%s", family, type, protocol, passive ? "passive" : "active", target, fail_call ? fail_call : "nothing", fail_errno, zero ? ", descriptor 0 is free" : "");
  int fd = net_socket(list);
  int fl = fd >= 0 ? fcntl(fd, F_GETFL) : 0;
  int moved = fd;
  int after = vx::open_fds();
  if (zero)
  {
    if (fd == 0) { moved = fcntl(0, F_DUPFD, 100); close(0); }
    if (saved >= 0) { dup2(saved, 0); close(saved); }
  }
  CHECK(made.empty() && vx_addrinfo_live == 0, "the address list is not consumed");
  if (failed || necessary)
  {
    vx::nontrivial();
    vx::count(failed ? "injected failure" : "refused by the system");
    CHECK(fd == -1, "a step of making the socket fails, the result is %d", fd);
    CHECK(after == before, "a descriptor leaked: %d open, before %d", after, before);
  }
  else
  {
    CHECK(fd >= 0, "no step fails, the result is %d", fd);
    CHECK(after == before + 1, "%d descriptors are open, before %d", after, before);
    CHECK(fl & O_NONBLOCK, "the socket is blocking");
    CHECK(closed_fds.empty(), "a descriptor was closed although the socket could be made");
    fd = moved;
    int v = 0; socklen_t l = sizeof v;
    getsockopt(fd, SOL_SOCKET, SO_TYPE, &v, &l);
    CHECK(v == type, "the socket's type is %d, not %d", v, type);
    v = 0; l = sizeof v;
    getsockopt(fd, SOL_SOCKET, SO_PROTOCOL, &v, &l);
    CHECK(v == the_protocol, "the socket's protocol is %d, not %d", v, the_protocol);
    if (passive)
    {
      vx::nontrivial(); vx::count("listening");
      v = 0; l = sizeof v;
      getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l);
      CHECK(v, "a passive socket does not listen");
      Address n = name_of(fd);
      CHECK(same_host(n, a), "a passive socket is bound to another address");
      // clients that connect before anyone accepts
      size_t clients = vx::chance(1, 8) ? 1 + vx::below(24) : 1;
      std::vector<int> cs;
      if (clients > 1) vx::count("several clients wait");
      for (size_t i = 0; i < clients; i++)
      {
        int c = socket(family, type | SOCK_NONBLOCK, 0), e = connect(c, (sockaddr *) &n.s, n.n) == 0 ? 0 : errno;
        pollfd p = {c, POLLOUT, 0};
        CHECK(e == 0 || e == EINPROGRESS, "connecting to a passive socket as client %zu: %s", i, strerror(e));
        CHECK(poll(&p, 1, 10000) == 1 && !(p.revents & (POLLERR | POLLHUP)), "connecting to a passive socket as client %zu before one was accepted", i);
        cs.push_back(c);
      }
      for (size_t i = 0; i < clients; i++)
      {
        pollfd p = {fd, POLLIN, 0};
        poll(&p, 1, 10000);
        int s = accept(fd, nullptr, nullptr);
        CHECK(s >= 0, "accepting client %zu of %zu on a passive socket: %m", i, clients);
        close(s);
      }
      for (int c : cs) reset(c);
      // another passive socket can share the address
      if (family != AF_UNIX && vx::chance(1, 4))
      {
        vx::count("shared address");
        addrinfo *again = ai(n, family, type, protocol, flags);
        made.insert(again);
        vx_addrinfo_live++;
        fail_call = nullptr;
        int fd2 = net_socket(again);
        CHECK(made.empty() && vx_addrinfo_live == 0, "the address list is not consumed");
        CHECK(fd2 >= 0, "a second passive socket cannot share the address");
        CHECK(same_address(name_of(fd2), n), "the second passive socket is bound to another address");
        close(fd2);
      }
    }
    else if (target == 0 && type == SOCK_STREAM)
    {
      vx::nontrivial(); vx::count("connected");
      pollfd p = {fd, POLLOUT, 0};
      CHECK(poll(&p, 1, 20000) == 1 && !(p.revents & (POLLERR | POLLHUP)), "an active socket does not connect (%x)", p.revents);
      CHECK(same_address(peer_of(fd), a), "an active socket is connected to another address");
      int s = accept(listener, nullptr, nullptr);
      CHECK(s >= 0 && write(fd, "x", 1) == 1, "an active socket is not connected");
      char b;
      CHECK(read(s, &b, 1) == 1 && b == 'x', "an active socket is connected to something else");
      reset(s);
    }
    else if (target == 0)
    {
      CHECK(same_address(peer_of(fd), a), "an active datagram socket has another peer");
    }
    else if (target == 1 && type == SOCK_STREAM)
    {
      vx::count("refused connection");
      pollfd p = {fd, POLLOUT, 0};
      CHECK(poll(&p, 1, 20000) == 1 && p.revents & (POLLERR | POLLHUP), "a refused connection is not visible on the socket (%x)", p.revents);
    }
    close(fd);
  }
  if (listener >= 0) close(listener);
  unlink(file.c_str());
}

// --- names -------------------------------------------------------------------
static std::string show(const addrinfo *a)
{
  std::string s;
  char b[100];
  for (; a; a = a->ai_next)
  {
    snprintf(b, sizeof b, "[%x %d %d %d ", a->ai_flags, a->ai_family, a->ai_socktype, a->ai_protocol);
    s += b;
    const uint8_t *p = (const uint8_t *) a->ai_addr;
    for (size_t i = 0; i < a->ai_addrlen; i++) { snprintf(b, sizeof b, "%02x", p[i]); s += b; }
    if (a->ai_canonname) s += std::string(" ") + a->ai_canonname;
    s += "]";
  }
  return s;
}
static void resolve_case()
{
  static const std::vector<std::string> hosts = {"127.0.0.1", "localhost", "::1", "1.2.3.4", "not numeric", "", "256.1.1.1", "0", "fe80::1"};
  static const std::vector<std::string> services = {"80", "http", "", "65535", "0", "nosuch", "99999", "domain"};
  std::string h = vx::pick(hosts), s = vx::pick(services);
  bool hn = vx::chance(1, 8), sn = vx::chance(1, 8);
  int family = vx::pick(std::vector<int>{AF_INET, AF_UNSPEC, AF_INET6, 77}), type = vx::pick(std::vector<int>{SOCK_STREAM, 0, SOCK_DGRAM, 99}), flags = 0;
  for (int f : {AI_PASSIVE, AI_NUMERICSERV, AI_CANONNAME}) if (vx::chance(1, 4)) flags |= f;
  if (h == "not numeric" || h == "256.1.1.1" || vx::chance(1, 2)) flags |= AI_NUMERICHOST;
  LOG("net_resolve %s %s family %d type %d flags %x", hn ? "null" : h.c_str(), sn ? "null" : s.c_str(), family, type, flags);
  addrinfo *got = net_resolve(hn ? nullptr : h.data(), sn ? nullptr : s.data(), family, type, flags);
  addrinfo hints = {}, *want = nullptr;
  hints.ai_family = family; hints.ai_socktype = type; hints.ai_flags = flags;
  bool ok = getaddrinfo(hn ? nullptr : h.c_str(), sn ? nullptr : s.c_str(), &hints, &want) == 0;
  CHECK(ok == (got != nullptr), "the system %s, net_resolve %s", ok ? "finds addresses" : "fails", got ? "finds addresses" : "fails");
  if (!ok) { CHECK(net_socket(got) == -1, "a socket is made from a failed resolution"); vx::count("unresolved"); return; }
  vx::count("resolved");
  CHECK(show(got) == show(want), "net_resolve gives %s, the system %s", show(got).c_str(), show(want).c_str());
  freeaddrinfo(want);
  freeaddrinfo(got);
  vx_addrinfo_live--;
}

// --- TLS ---------------------------------------------------------------------
static void put(const std::string &p, const std::string &s)
{
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  CHECK(fd >= 0 && write(fd, s.data(), s.size()) == (ssize_t) s.size(), "write %s", p.c_str());
  close(fd);
}
static std::string contents(bool cert, int k)
{
  std::string s = cert ? cert_pem[k] : key_pem[k];
  switch (vx::weighted({10, 1, 1, 1, 1, 1, 1, 1}))
  {
  case 1: s.resize(vx::below(s.size() + 1)); break;
  case 2: s[vx::below(s.size())] = (char) vx::byte(); break;
  case 3: s = "a line of text\n\n" + s; break;
  case 4: s = cert ? s + key_pem[k] : cert_pem[k] + s; break;
  case 5: s = cert ? key_pem[k] + s : s + cert_pem[k]; break;
  case 6: s = cert ? key_pem[k] : cert_pem[k]; break;
  case 7: s = vx::bytes(vx::below(40)); break;
  }
  // an encrypted key would make OpenSSL ask for a pass phrase
  if (s.find("ENCRYPTED") != std::string::npos) s.clear();
  return s;
}
static bool shake(SSL_CTX *server, X509 *expected, bool *same = nullptr)
{
  static SSL_CTX *cctx = SSL_CTX_new(TLS_client_method());
  SSL *s = SSL_new(server), *cl = SSL_new(cctx);
  BIO *b1, *b2;
  BIO_new_bio_pair(&b1, 0, &b2, 0);
  SSL_set_bio(s, b1, b1);
  SSL_set_bio(cl, b2, b2);
  SSL_set_accept_state(s);
  SSL_set_connect_state(cl);
  int done = 0;
  for (int i = 0; i < 20 && done != 3; i++)
  {
    if (SSL_do_handshake(cl) == 1) done |= 1;
    if (SSL_do_handshake(s) == 1) done |= 2;
  }
  if (done == 3 && same)
  {
    X509 *seen = SSL_get1_peer_certificate(cl);
    *same = seen && X509_cmp(seen, expected) == 0;
    X509_free(seen);
  }
  SSL_free(s);
  SSL_free(cl);
  ERR_clear_error();
  return done == 3;
}

static void tls_case()
{
  int c = (int) vx::below(6), k = vx::chance(2, 3) ? c : (int) vx::below(6);
  std::string cf = std::string(vx::scratch()) + "/cert", kf = std::string(vx::scratch()) + "/key";
  int cw = (int) vx::weighted({10, 1, 1}), kw = (int) vx::weighted({10, 1, 1});
  std::string cs = contents(true, c), ks = contents(false, k);
  unlink(cf.c_str()); unlink(kf.c_str());
  if (cw == 0) put(cf, cs); else cs = "";
  if (cw == 2) cf = vx::scratch();
  if (kw == 0) put(kf, ks); else ks = "";
  if (kw == 2) kf = "/";
  // a second opinion on the files
  BIO *b = BIO_new_mem_buf(cs.data(), (int) cs.size());
  X509 *x = PEM_read_bio_X509_AUX(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  b = BIO_new_mem_buf(ks.data(), (int) ks.size());
  EVP_PKEY *p = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  bool ok = x && p && X509_check_private_key(x, p) == 1;
  ERR_clear_error();
  int fds = vx::open_fds();
  std::string cf2 = cf, kf2 = kf;
  LOG("certificate %d (%s), key %d (%s): %s", c, cw == 0 ? "file" : cw == 1 ? "missing" : "directory", k, kw == 0 ? "file" : kw == 1 ? "missing" : "directory", ok ? "match" : "no match");
  // the first context allocates what the library keeps
  static bool warm;
  if (!warm) { warm = true; SSL_CTX_free(net_ssl_server_context(cf2.data(), kf2.data())); ERR_clear_error(); SSL_CTX *w = SSL_CTX_new(TLS_server_method()); SSL_CTX_free(w); }
  long live = ssl_live;
  SSL_CTX *ctx = net_ssl_server_context(cf2.data(), kf2.data());
  CHECK((ctx != nullptr) == ok, "certificate and key %s, the result is %s", ok ? "can be loaded and match" : x && p ? "do not match" : "cannot both be loaded", ctx ? "a context" : "NULL");
  CHECK(vx::open_fds() == fds, "descriptors leaked");
  if (!ok)
  {
    ERR_clear_error();
    CHECK(ssl_live == live, "%ld blocks of OpenSSL leaked", ssl_live - live);
    vx::count(x && p ? "mismatch" : "not loadable");
    vx::nontrivial();
  }
  else if (vx::chance(1, 3))
  {
    vx::count("handshake");
    vx::nontrivial();
    // a key can carry the right public half and be useless: what OpenSSL
    // itself makes of the pair, outside the library, says what to expect
    SSL_CTX *second = SSL_CTX_new(TLS_server_method());
    bool usable = SSL_CTX_use_certificate(second, x) == 1 && SSL_CTX_use_PrivateKey(second, p) == 1 && shake(second, nullptr);
    SSL_CTX_free(second);
    bool same = false;
    bool done = shake(ctx, x, &same);
    vx::count(usable ? "handshake with a usable key" : "key that cannot sign");
    CHECK(done == usable, "a handshake with the context %s", usable ? "fails" : "succeeds with a key that cannot sign");
    CHECK(!done || same, "the context presents another certificate");
  }
  SSL_CTX_free(ctx);
  X509_free(x);
  EVP_PKEY_free(p);
  ERR_clear_error();
}

void vx_case()
{
  vx_fault_hook = fault;
  vx_freeaddrinfo_hook = unfake;
  fail_call = nullptr;
  made.clear();
  switch (vx::weighted({5, 1, 3}))
  {
  case 0: socket_case(); break;
  case 1: resolve_case(); break;
  case 2: tls_case(); break;
  }
  CHECK(vx_addrinfo_live == 0, "%ld address lists leaked", vx_addrinfo_live);
}
