// C23: a lookup reports what the system resolver answers for exactly these arguments, once, on the loop.
#include "common.h"
#include <atomic>
#include <dirent.h>
#include <mutex>
#include <netdb.h>
#include <netinet/in.h>
#include <sched.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C23", "name resolution reports the system's answer once, without blocking the loop", 50000, 1200000,
  "one case is a history of up to 25 lookups, cancels, destructions, loop runs on one to four resolvers, made between iterations and inside callbacks, with generated hosts, services, families, types, protocols and flags; "
  "most lookups are answered by a stand-in for getaddrinfo whose result is a function of all its arguments and which can block until released; a fifth of the cases compare with the real getaddrinfo; "
  "non-trivial: a pending lookup was cancelled, replaced or destroyed, or a success and a failure were reported",
  20, 60, true, "the stand-in behaves like the system resolver: reentrant, and cancellable only while it waits"};

struct Query
{
  bool host_null = true, service_null = true;
  std::string host, service;
  int family = 0, type = 0, protocol = 0, flags = 0;
};
struct V
{
  resolver *r = nullptr;
  void *token = nullptr;
  bool outstanding = false;
  bool reported = false;
  Query q;
};

static std::vector<std::unique_ptr<V>> vs;
static std::map<void *, V *> by_token;
static std::vector<void *> tokens;
static std::thread::id loop_thread;
static bool in_loop, interesting, real_mode, saw_success, saw_failure;
static size_t budget;
static std::atomic<int> gate, blocked, on_loop;
static int keep_open;

// --- the stand-in: fills *res; a function of every argument ---------------
static std::mutex mtx;
static std::set<addrinfo *> made;
static uint64_t mix(uint64_t h, const void *p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *) p)[i]) * 1099511628211u; return h; }
static uint64_t hash(const Query &q)
{
  uint64_t h = 14695981039346656037u;
  int v[6] = {q.host_null, q.service_null, q.family, q.type, q.protocol, q.flags};
  h = mix(h, v, sizeof v);
  h = mix(h, q.host.c_str(), q.host.size() + 1);
  return mix(h, q.service.c_str(), q.service.size() + 1);
}
struct Fake { addrinfo ai; sockaddr_in sin; };
static addrinfo *answer(const Query &q)
{
  uint64_t h = hash(q);
  if (h % 4 == 0) return nullptr;
  size_t n = 1 + h / 4 % 4;
  Fake *f = (Fake *) calloc(n, sizeof *f);
  for (size_t i = 0; i < n; i++)
  {
    f[i].sin.sin_family = AF_INET;
    f[i].sin.sin_port = (in_port_t) (h >> 8);
    f[i].sin.sin_addr.s_addr = (in_addr_t) (h * (i + 1));
    f[i].ai = {q.flags, AF_INET, q.type, q.protocol, sizeof f[i].sin, (sockaddr *) &f[i].sin, nullptr, i + 1 < n ? &f[i + 1].ai : nullptr};
  }
  return &f[0].ai;
}
static int fake(const char *host, const char *service, const addrinfo *hints, addrinfo **res)
{
  if (real_mode) return -12345;
  if (std::this_thread::get_id() == loop_thread) on_loop++;
  Query q;
  static const addrinfo none = {};
  if (!hints) hints = &none;
  q.host_null = !host; q.service_null = !service;
  if (host) q.host = host;
  if (service) q.service = service;
  q.family = hints->ai_family; q.type = hints->ai_socktype; q.protocol = hints->ai_protocol; q.flags = hints->ai_flags;
  if (q.host.compare(0, 4, "slow") == 0)
  {
    blocked++;
    while (!gate) { struct timespec t = {0, 50000}; nanosleep(&t, nullptr); }
  }
  addrinfo *a = answer(q);
  if (!a) { *res = (addrinfo *) 0x10; return EAI_NONAME; } // what is stored on failure is unspecified
  std::lock_guard<std::mutex> g(mtx);
  made.insert(a);
  *res = a;
  return 0;
}
static int unfake(addrinfo *a)
{
  std::lock_guard<std::mutex> g(mtx);
  if (!made.erase(a)) { if (!real_mode) vx::fail("an address list is released that is not one, or twice"); return 0; }
  free(a);
  return 1;
}
static std::string show(const addrinfo *a)
{
  std::string s;
  char b[100];
  for (; a; a = a->ai_next)
  {
    snprintf(b, sizeof b, "[%x %d %d %d ", a->ai_flags, a->ai_family, a->ai_socktype, a->ai_protocol);
    s += b;
    const uint8_t *p = (const uint8_t *) a->ai_addr;
    for (size_t i = 0; i < a->ai_addrlen; i++) { snprintf(b, sizeof b, "%02x", p[i]); s += b; }
    if (a->ai_canonname) s += std::string(" ") + a->ai_canonname;
    s += "]";
  }
  return s;
}
static std::string expected(const Query &q, bool &ok)
{
  addrinfo *a = nullptr;
  std::string s;
  if (real_mode)
  {
    addrinfo hints = {};
    hints.ai_family = q.family; hints.ai_socktype = q.type; hints.ai_protocol = q.protocol; hints.ai_flags = q.flags;
    ok = getaddrinfo(q.host_null ? nullptr : q.host.c_str(), q.service_null ? nullptr : q.service.c_str(), &hints, &a) == 0;
    if (!ok) return "";
    s = show(a);
    freeaddrinfo(a);
    return s;
  }
  a = answer(q);
  ok = a != nullptr;
  s = show(a);
  free(a);
  return s;
}

static void callback(reactor_event *);
static const char *I() { return in_loop ? "    " : "  "; }
static void construct(V &v)
{
  v.r = (resolver *) malloc(sizeof(resolver));
  v.token = malloc(1);
  tokens.push_back(v.token);
  by_token[v.token] = &v;
  resolver_construct(v.r, callback, v.token);
}
static Query some_query()
{
  static const std::vector<std::string> hosts = {"alpha", "slow", "beta.example", "slow.example", "", "127.0.0.1", "a", "alpha2"};
  static const std::vector<std::string> real_hosts = {"127.0.0.1", "localhost", "::1", "1.2.3.4", "fe80::1", "::ffff:1.2.3.4", "not numeric", "", "256.1.1.1", "0", "vm"};
  static const std::vector<std::string> services = {"80", "http", "", "https", "65535", "0", "nosuch", "99999", "domain", "-1"};
  Query q;
  q.host_null = vx::chance(1, 8);
  q.service_null = vx::chance(1, 8);
  if (!q.host_null) q.host = real_mode ? vx::pick(real_hosts) : vx::pick(hosts);
  if (!q.service_null) q.service = vx::pick(services);
  if (!real_mode && !q.host_null && vx::chance(1, 8)) q.host += std::string(1 + vx::below(300), 'x');
  q.family = vx::pick(std::vector<int>{AF_UNSPEC, AF_INET, AF_INET6});
  q.type = vx::pick(std::vector<int>{SOCK_STREAM, 0, SOCK_DGRAM, SOCK_RAW});
  q.protocol = vx::pick(std::vector<int>{0, IPPROTO_TCP, IPPROTO_UDP});
  for (int f : {AI_PASSIVE, AI_NUMERICHOST, AI_NUMERICSERV, AI_CANONNAME}) if (vx::chance(1, 4)) q.flags |= f;
  if (real_mode && !vx::chance(1, 6)) q.flags |= AI_NUMERICHOST;
  if (real_mode && q.host == "not numeric") q.flags |= AI_NUMERICHOST;
  return q;
}
static void lookup(V &v)
{
  if (v.outstanding) { interesting = true; vx::count("replaced while pending"); }
  v.q = some_query();
  LOG("%slookup %s %s family %d type %d protocol %d flags %x", I(), v.q.host_null ? "null" : vx::quote(v.q.host, 30).c_str(), v.q.service_null ? "null" : v.q.service.c_str(), v.q.family, v.q.type, v.q.protocol, v.q.flags);
  vx::Exact h(v.q.host + std::string(1, '\0')), s(v.q.service + std::string(1, '\0'));
  resolver_lookup(v.r, v.q.host_null ? nullptr : h.p, v.q.service_null ? nullptr : s.p, v.q.family, v.q.type, v.q.protocol, v.q.flags);
  memset(h.p, '#', h.n - 1);
  memset(s.p, '#', s.n - 1);
  v.outstanding = true;
  v.reported = false;
}
static void destroy(V &v)
{
  LOG("%sdestroy", I());
  if (v.outstanding) { interesting = true; vx::count("destroyed while pending"); }
  resolver_destruct(v.r);
  memset((void *) v.r, 0xee, sizeof *v.r);
  free(v.r);
  v.r = nullptr;
  v.outstanding = false;
  by_token.erase(v.token);
}
static int idle(void)
{
  for (auto &v : vs)
    if (v->outstanding && (gate || v->q.host.compare(0, 4, "slow") != 0)) { sched_yield(); return 1; }
  return 0;
}
static void run()
{
  long i = vx_idle_count;
  in_loop = true;
  do reactor_loop_once(); while (vx_idle_count == i);
  in_loop = false;
}
static void program(V *self, unsigned mean)
{
  while (budget && vx::more(mean))
  {
    budget--;
    V &v = self && vx::chance(2, 3) ? *self : *vs[vx::below(vs.size())];
    if (!v.r) { construct(v); continue; }
    if (real_mode && v.outstanding) continue; // cancelling inside the C library's resolver is not safe by itself
    switch (vx::weighted({6, 1, 1, 1, 2, 1}))
    {
    case 0: lookup(v); break;
    case 1:
      LOG("%scancel", I());
      if (v.outstanding) { interesting = true; vx::count("cancelled while pending"); }
      resolver_cancel(v.r);
      v.outstanding = false;
      break;
    case 2: destroy(v); break;
    case 3: if (!v.outstanding) { LOG("%sclear", I()); resolver_clear(v.r); } break;
    case 4: gate = (int) vx::below(2) | keep_open; break;
    case 5: // let a pending lookup get somewhere
      if (v.outstanding && !gate && v.q.host.compare(0, 4, "slow") == 0) { for (int k = 0; k < 2000 && !blocked; k++) sched_yield(); }
      else for (unsigned k = (unsigned) vx::below(30); k; k--) sched_yield();
      break;
    }
    if (!in_loop && vx::chance(1, 3)) { LOG("run"); run(); }
  }
}
static void callback(reactor_event *e)
{
  CHECK(in_loop && std::this_thread::get_id() == loop_thread, "a result is reported outside of the loop");
  auto it = by_token.find(e->state);
  CHECK(it != by_token.end(), "a destroyed resolver reports");
  V &v = *it->second;
  CHECK(v.outstanding, "a result is reported for a lookup that is not pending: %s", v.reported ? "it was reported before" : "cancelled");
  CHECK(e->type == RESOLVER_SUCCESS || e->type == RESOLVER_FAILURE, "unknown event %d", e->type);
  bool ok;
  std::string want = expected(v.q, ok);
  LOG("  %s", e->type == RESOLVER_SUCCESS ? "success" : "failure");
  CHECK(ok == (e->type == RESOLVER_SUCCESS), "the system %s, the resolver reports %s", ok ? "finds addresses" : "finds nothing", ok ? "failure" : "success");
  std::string got = ok ? show((addrinfo *) e->data) : "";
  CHECK(got == want, "the result is %s, the system's answer is %s", got.c_str(), want.c_str());
  (ok ? saw_success : saw_failure) = true;
  vx::count(ok ? "success" : "failure");
  v.outstanding = false;
  v.reported = true;
  program(&v, 1);
}
static int threads(void)
{
  int n = 0;
  DIR *d = opendir("/proc/self/task");
  while (d && readdir(d)) n++;
  closedir(d);
  return n - 2;
}

void vx_case()
{
  vs.clear(); by_token.clear(); tokens.clear();
  in_loop = interesting = saw_success = saw_failure = false;
  real_mode = vx::chance(1, 5);
  gate = (int) vx::below(2);
  blocked = on_loop = keep_open = 0;
  budget = 25;
  loop_thread = std::this_thread::get_id();
  vx_getaddrinfo_hook = fake;
  vx_freeaddrinfo_hook = unfake;
  ZeroFd zero;
  int fds0 = vx::open_fds(), threads0 = threads();
  vx_idle_hook = idle;
  reactor_construct();
  zero.later(fds0);
  size_t n = 1 + vx::below(4);
  for (size_t i = 0; i < n; i++) { vs.emplace_back(new V); construct(*vs[i]); }
  program(nullptr, 14);
  if (vx::chance(2, 3))
  {
    LOG("run all");
    gate = keep_open = 1;
    run();
    for (auto &v : vs) CHECK(!v->outstanding, "a lookup has not been reported");
    size_t b = budget;
    budget = 0;
    run();
    budget = b;
  }
  if (real_mode) run();
  for (auto &v : vs) if (v->r) destroy(*v);
  run();
  reactor_destruct();
  for (auto t : tokens) free(t);
  CHECK(on_loop == 0, "the system resolver was called on the loop's thread");
  for (int i = 0; threads() > threads0; i++) { CHECK(i < 20000, "%d threads are left", threads() - threads0); usleep(100); }
  CHECK(vx::open_fds() == fds0, "%d descriptors leaked", vx::open_fds() - fds0);
  CHECK(vx::vx_live_blocks() == 0, "%ld blocks leaked", vx::vx_live_blocks());
  CHECK(vx_addrinfo_live == 0, "%ld address lists leaked", vx_addrinfo_live);
  CHECK(made.empty(), "%zu address lists leaked", made.size());
  if (interesting || (saw_success && saw_failure)) vx::nontrivial();
}
