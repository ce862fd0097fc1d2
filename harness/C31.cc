// C31: the Date header.  VX_SERVER
#include "srv.h"
#include "certs.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C31", "every response carries a well-formed and current Date header", 120000, 5000000,
  "a case has one to four servers, one after another or at the same time, shut down and destructed in between, starts them at a generated instant between 1970 and 9999 (often at the end of a day, month or year, or in a leap year) with a clock and timers that only the harness moves, opens them (some with TLS) or only hands them connections, "
  "and in between steps of nanoseconds to years runs the loop, sends requests, and answers at once or later; the date of every response is compared with an independent calendar and with the clock; in addition every day "
  "of those 8030 years is visited in one running server; non-trivial: the clock was moved by at least a second between two responses"};

// --- the calendar, by counting ----------------------------------------------
static const char *const wdays[] = {"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"}; // 1970-01-01 was a Thursday
static const char *const names[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int month_days(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return d[m] + (m == 1 && leap(y)); }
static std::vector<int64_t> &years() // day number of every January 1st
{
  static std::vector<int64_t> v = [] { std::vector<int64_t> r; int64_t d = 0; for (int y = 1970; y <= 10000; y++) { r.push_back(d); d += leap(y) ? 366 : 365; } return r; }();
  return v;
}
static std::string format(int64_t t)
{
  int64_t day = t / 86400, s = t % 86400;
  auto &y = years();
  int year = (int) (std::upper_bound(y.begin(), y.end(), day) - y.begin()) - 1 + 1970, m = 0;
  int64_t d = day - y[(size_t) (year - 1970)];
  while (d >= month_days(year, m)) d -= month_days(year, m++);
  char b[80];
  snprintf(b, sizeof b, "%s, %02d %s %04d %02d:%02d:%02d GMT", wdays[day % 7], (int) d + 1, names[m], year, (int) (s / 3600), (int) (s / 60 % 60), (int) (s % 60));
  return b;
}
static int64_t instant(const std::string &d) // -1: not a date
{
  if (d.size() != 29) return -1;
  int m = 0;
  while (m < 12 && d.compare(8, 3, names[m]) != 0) m++;
  if (m == 12) return -1;
  int day = atoi(d.substr(5, 2).c_str()), year = atoi(d.substr(12, 4).c_str());
  if (year < 1970 || year > 9999 || day < 1 || day > month_days(year, m)) return -1;
  int64_t t = years()[(size_t) (year - 1970)];
  for (int i = 0; i < m; i++) t += month_days(year, i);
  t = (t + day - 1) * 86400 + atoi(d.substr(17, 2).c_str()) * 3600 + atoi(d.substr(20, 2).c_str()) * 60 + atoi(d.substr(23, 2).c_str());
  return format(t) == d ? t : -1;
}

// --- servers and clients ------------------------------------------------------
static const long long S = 1000000000;
static const long long LAST = 253402300799LL;
struct Server { void *s; bool open, opened, destructed, tls; };
struct Client { int fd; size_t server; SSL *ssl = nullptr; std::string waiting; int sent = 0, delivered = 0; std::string got; struct Span { int64_t lo, hi; }; std::vector<Span> spans; size_t seen = 0; };
static const size_t MAX = 4;
static Server servers[MAX];
static SSL_CTX *server_ctx, *client_ctx;
extern "C" void vx_worker_init(void)
{
  server_ctx = SSL_CTX_new(TLS_server_method());
  EVP_PKEY *k = certs::key(0);
  X509 *x = certs::cert(k, 0, 0);
  SSL_CTX_use_certificate(server_ctx, x);
  SSL_CTX_use_PrivateKey(server_ctx, k);
  client_ctx = SSL_CTX_new(TLS_client_method());
}
static std::vector<std::unique_ptr<Client>> clients;
static std::vector<std::pair<void *, size_t>> due;
static int64_t lower;            // no date may be before this second
static int64_t last_date_time;
static bool far_apart, immediate;
static uint64_t last_answer;
static int64_t secs() { return vx_frozen_base_s + vx_frozen_ns / S; }
static int idle(void) { return 0; }
static void answer(void *rq, size_t client)
{
  clients[client]->spans.push_back({lower, secs()});
  if (last_answer && (uint64_t) vx_frozen_ns >= last_answer + (uint64_t) S) far_apart = true;
  last_answer = (uint64_t) vx_frozen_ns + 1;
  switch (vx::below(3))
  {
  case 0: srv_ok(rq, data_null(), data_string("x")); break;
  case 1: srv_not_found(rq); break;
  case 2: srv_respond(rq, data_string("202 Fine"), data_string("text/plain"), data_null()); break;
  }
}
static void callback(reactor_event *e)
{
  void *rq = (void *) e->data;
  int c = -1;
  sscanf(str(srv_target(rq)).c_str(), "/%d", &c);
  CHECK(c >= 0 && (size_t) c < clients.size(), "unknown request");
  if (immediate || vx::chance(2, 3)) answer(rq, (size_t) c);
  else due.push_back({rq, (size_t) c});
}
static void read_all(Client &c)
{
  char b[8192];
  ssize_t k;
  if (c.ssl)
  {
    ERR_clear_error();
    while ((k = SSL_read(c.ssl, b, sizeof b)) > 0) c.got.append(b, (size_t) k);
    if (!c.waiting.empty() && SSL_is_init_finished(c.ssl) && SSL_write(c.ssl, c.waiting.data(), (int) c.waiting.size()) > 0) c.waiting.clear();
    ERR_clear_error();
  }
  else while ((k = read(c.fd, b, sizeof b)) > 0) c.got.append(b, (size_t) k);
  while (true)
  {
    size_t end = c.got.find("\r\n\r\n");
    if (end == std::string::npos) break;
    std::string h = c.got.substr(0, end + 2);
    size_t body = h.find("Content-Length: ") == std::string::npos ? 0 : (size_t) atoi(h.c_str() + h.find("Content-Length: ") + 16);
    if (c.got.size() < end + 4 + body) break;
    c.got.erase(0, end + 4 + body);
    CHECK(c.seen < c.spans.size(), "a response nobody gave");
    auto &s = c.spans[c.seen++];
    size_t at = h.find("\r\nDate: ");
    CHECK(at != std::string::npos, "a response without date: %s", vx::quote(h).c_str());
    std::string d = h.substr(at + 8, h.find("\r\n", at + 8) - at - 8);
    CHECK(h.find("\r\nDate: ", at + 8) == std::string::npos, "a response with two dates: %s", vx::quote(h).c_str());
    int64_t t = instant(d);
    CHECK(t >= 0, "the date %s is not valid, the clock was at %s", vx::quote(d).c_str(), format(s.hi).c_str());
    CHECK(t <= s.hi, "the date %s is ahead of the clock, which was at %s", d.c_str(), format(s.hi).c_str());
    CHECK(t >= s.lo, "the date %s is old, the clock was at %s, and the loop was idle so that the date must be at least %s", d.c_str(), format(s.hi).c_str(), format(s.lo).c_str());
  }
}
static void run()
{ // until nothing is left to do
  for (int k = 0; k < (clients.empty() ? 1 : 4); k++)
  {
    do reactor_loop_once(); while (vx_idle_count == 0);
    vx_idle_count = 0;
    bool tls = false;
    for (auto &c : clients) if (c->ssl) { tls = true; read_all(*c); }
    if (!tls) break;
  }
  lower = std::max<int64_t>(lower, vx_frozen_base_s + (vx_frozen_ns < S ? -1 : (vx_frozen_ns - S) / S));
}
static void connect(size_t server)
{
  int p[2];
  CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "socketpair");
  clients.emplace_back(new Client);
  clients.back()->fd = p[1];
  clients.back()->server = server;
  if (servers[server].tls)
  {
    SSL *c = clients.back()->ssl = SSL_new(client_ctx);
    SSL_set_fd(c, p[1]);
    SSL_set_connect_state(c);
  }
  srv_accept(servers[server].s, p[0]);
}
static void request(size_t i)
{
  Client &c = *clients[i];
  char b[64];
  snprintf(b, sizeof b, "GET /%zu HTTP/1.1\r\n\r\n", i);
  if (c.ssl) { c.waiting += b; read_all(c); }
  else CHECK(send(c.fd, b, strlen(b), MSG_NOSIGNAL) == (ssize_t) strlen(b), "send");
  c.sent++;
}
static void start(int64_t t, long long ns)
{
  clients.clear(); due.clear();
  far_apart = immediate = false;
  last_answer = 0;
  vx_idle_hook = idle; vx_idle_count = 0;
  vx_time_frozen = 1; vx_virtual_timers = 1;
  vx_frozen_base_s = t;
  vx_frozen_ns = ns;
  lower = 0;
}
static int listener()
{
  int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
  CHECK(listen(fd, 8) == 0 || true, "listen"); // nobody connects
  struct sockaddr a = {};
  a.sa_family = AF_UNIX;
  CHECK(bind(fd, &a, sizeof(sa_family_t)) == 0 && listen(fd, 8) == 0, "listen: %m");
  return fd;
}
static void create(size_t i)
{
  LOG("construct %zu", i);
  servers[i] = {srv_new(callback, nullptr), false, false, false, false};
  lower = std::max(lower, secs()); // the date of the thread is updated
}
static void open_it(size_t i, bool tls = false)
{
  servers[i].tls = tls;
  if (tls) vx::count("TLS server");
  LOG("open %zu%s", i, tls ? " with TLS" : "");
  srv_open(servers[i].s, listener(), tls ? server_ctx : nullptr);
  servers[i].open = servers[i].opened = true;
}
static void destruct(size_t i)
{
  for (size_t k = 0; k < due.size();)
    if (clients[due[k].second]->server == i) { auto d = due[k]; due.erase(due.begin() + (long) k); answer(d.first, d.second); }
    else k++;
  for (auto &c : clients) read_all(*c);
  LOG("destruct %zu", i);
  srv_destruct(servers[i].s);
  srv_free(servers[i].s);
  servers[i].open = false;
  servers[i].opened = servers[i].destructed = true;
}
static void finish(size_t n)
{
  for (auto &d : due) answer(d.first, d.second);
  for (auto &c : clients) { read_all(*c); }
  run();
  for (auto &c : clients) { read_all(*c); CHECK(c->seen == (size_t) c->sent || servers[c->server].opened, "%zu of %d responses", c->seen, c->sent); }
  for (size_t i = 0; i < n; i++) if (!servers[i].destructed) { srv_destruct(servers[i].s); srv_free(servers[i].s); }
  reactor_destruct();
  for (auto &c : clients) { if (c->ssl) SSL_free(c->ssl); close(c->fd); }
  vx_time_frozen = vx_virtual_timers = 0;
  vx_frozen_base_s = 0;
  CHECK(vx::vx_live_blocks() == 0, "%ld blocks leaked", vx::vx_live_blocks());
}
static int64_t some_instant()
{
  int64_t t;
  switch (vx::weighted({3, 3, 2, 2}))
  {
  case 0: return (int64_t) vx::below((uint64_t) LAST);
  case 1: // around the start of a month
  {
    int y = (int) vx::range(1970, 9999), m = (int) vx::below(12);
    int64_t d = years()[(size_t) (y - 1970)];
    for (int i = 0; i < m; i++) d += month_days(y, i);
    t = d * 86400 + (int64_t) vx::below(8) - 4;
    break;
  }
  case 2: // around midnight
    t = (int64_t) vx::below((uint64_t) LAST / 86400) * 86400 + (int64_t) vx::below(8) - 4;
    break;
  default: // February in years that are leap years or not
  {
    static const std::vector<int> y = {1972, 2000, 2100, 2024, 2400, 1999, 9996, 2200, 1980};
    t = (years()[(size_t) (vx::pick(y) - 1970)] + 31 + 27) * 86400 + (int64_t) vx::below(3 * 86400);
  }
  }
  return std::min<int64_t>(std::max<int64_t>(t, 0), LAST);
}
void vx_case()
{
  start(some_instant(), (long long) vx::below((uint64_t) S));
  ZeroFd zero;
  int fds = 0;
  reactor_construct();
  zero.later(fds);
  size_t n = vx::chance(1, 4) ? 2 : 1;
  size_t in_turn = 0; // servers that had an earlier one destructed
  LOG("start at %s", format(secs()).c_str());
  for (size_t i = 0; i < n; i++) { create(i); if (vx::chance(2, 3)) open_it(i, vx::chance(1, 20)); }
  size_t budget = 60;
  auto step_time = [&] {
    long long ns;
    switch (vx::weighted({4, 3, 2, 1}))
    {
    case 0: ns = (long long) vx::bits(31); break;
    case 1: ns = (long long) vx::below(4) * S + (long long) vx::below(3) - 1; break;
    case 2: ns = (long long) vx::bits(18) * S; break;
    default: ns = (long long) vx::bits(30) * S;
    }
    if (ns < 0) ns = 0;
    if (secs() + ns / S + 1 > LAST || vx_frozen_ns + ns > 200LL * 365 * 86400 * S) ns = secs() + 3 > LAST ? 0 : std::min<long long>(ns, S);
    LOG("time passes: %lld.%09lld s", ns / S, ns % S);
    vx_advance(ns);
  };
  while (budget && vx::more(25))
  {
    budget--;
    switch (vx::weighted({6, 6, 6, 3, 3, 1, 1, 1, 1}))
    {
    case 0: step_time(); break;
    case 1: LOG("loop"); run(); break;
    case 2: if (clients.size()) { size_t i = vx::below(clients.size()); LOG("request from %zu", i); if (!servers[clients[i]->server].destructed) { char b; if (recv(clients[i]->fd, &b, 1, MSG_PEEK) != 0) request(i); } } break;
    case 3: if (clients.size() < 10) { size_t i = vx::below(n); if (!servers[i].destructed && (!servers[i].opened || servers[i].open)) { LOG("client %zu of %zu", clients.size(), i); connect(i); } } break;
    case 4: if (!due.empty()) { size_t i = vx::below(due.size()); auto d = due[i]; due.erase(due.begin() + (long) i); LOG("answer"); answer(d.first, d.second); } break;
    case 5: { size_t i = vx::below(n); if (!servers[i].destructed && (servers[i].open || vx::chance(1, 3))) { LOG("shutdown %zu", i); if (!servers[i].open) vx::count("shut down twice or never opened"); srv_shutdown(servers[i].s); servers[i].open = false; servers[i].opened = true; } break; }
    case 6: { size_t i = vx::below(n); if (!servers[i].open && !servers[i].destructed) open_it(i, vx::chance(1, 20)); break; }
    case 7: if (n < MAX) { create(n); if (vx::chance(1, 2)) open_it(n, vx::chance(1, 20)); n++; } break;
    case 8: { size_t i = vx::below(n); if (!servers[i].destructed) { destruct(i); in_turn++; } break; }
    }
    for (auto &c : clients) read_all(*c);
  }
  immediate = true;
  finish(n);
  if (in_turn) vx::count("a server destructed while the case went on");
  if (far_apart) vx::nontrivial();
}
extern "C" int vx_exhaustive(int worker, int workers, int tier, char *summary, size_t size)
{
  int64_t days = LAST / 86400 + 1, n = 0;
  start(0, 0);
  reactor_construct();
  immediate = true;
  create(0);
  open_it(0);
  connect(0);
  run();
  for (int64_t d = worker; d < days; d += workers)
  {
    int64_t t = d * 86400 + (d * 7919) % 86400;
    vx_frozen_base_s = t - (vx_frozen_ns / S + 2);
    vx_advance(2 * S);
    lower = 0;
    run();
    request(0);
    run();
    read_all(*clients[0]);
    n++;
  }
  finish(1);
  snprintf(summary, size, "%ld days visited", (long) n);
  return 0;
}
