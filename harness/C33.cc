// C33: loops in different threads are independent.  VX_SERVER VX_PREEMPT
#include "srv.h"
#include "certs.h"
#include <condition_variable>
#include <fcntl.h>
#include <mutex>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/inotify.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <thread>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C33", "event loops in different threads are completely independent", 6000, 200000,
  "a case is two to six threads, each with up to three loops in sequence made of generated timers, events, plain and TLS stream pairs, asynchronous calls, lookups, watched directories, computations on maps, lists, vectors, strings, parsers and formatters, and servers with clients, run to their end, one iteration at a time, or aborted in a callback; "
  "every thread has a clock of its own, years apart; the interleaving is a generated sequence of turns that the callbacks, and generated memory accesses and branches inside the library, wait for, or left to the scheduler; each thread's results (bytes, responses, dates, counts, times) are compared with those of the same thread run alone; "
  "non-trivial: the turns changed threads at least four times while callbacks were running", 20, 30, false};

// --- turns ---------------------------------------------------------------------
static std::mutex mx;
static std::condition_variable cv;
static std::vector<int> turns;
static size_t turn_at;
static std::vector<bool> finished;
static size_t switches;
static int last_turn;
static void skip() { while (turn_at < turns.size() && finished[(size_t) turns[turn_at]]) turn_at++; }
static void turn(int tid)
{
  std::unique_lock<std::mutex> l(mx);
  skip();
  cv.wait(l, [&] { skip(); return turn_at >= turns.size() || turns[turn_at] == tid; });
  if (turn_at < turns.size()) { turn_at++; if (last_turn != tid) switches++; last_turn = tid; }
  cv.notify_all();
}
// called by the library's instrumented code
static unsigned stride; // 0: only callbacks wait for turns
static unsigned quiet;  // accesses before the first wait
static __thread int preempt_tid = -1;
static __thread unsigned preempt_left;
static __thread uint64_t preempt_rng;
static __thread bool preempting;
static std::atomic<uint64_t> preemptions;
static __thread bool loop_thread;
static __thread unsigned pauses;
static void worker_preempt()
{ // a thread of an asynchronous call: now and then it sleeps, where it cannot be cancelled
  if (!preempt_left) { preempt_rng = (uint64_t) (uintptr_t) &pauses + stride; preempt_left = 1 + (unsigned) (preempt_rng >> 12) % 16; }
  if (--preempt_left) return;
  preempting = true;
  preempt_rng = preempt_rng * 6364136223846793005u + 1442695040888963407u;
  preempt_left = 1 + (unsigned) ((preempt_rng >> 33) % std::min(stride, 32u));
  if (++pauses <= 8)
  {
    int old;
    pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old);
    usleep((unsigned) (preempt_rng >> 40) % 200);
    pthread_setcancelstate(old, nullptr);
  }
  preempting = false;
}
static inline void preempt()
{
  if (preempt_tid < 0 && stride && !loop_thread && !preempting) worker_preempt();
  if (preempt_tid < 0 || preempting || --preempt_left) return;
  preempting = true;
  preempt_rng = preempt_rng * 6364136223846793005u + 1442695040888963407u;
  preempt_left = 1 + (unsigned) ((preempt_rng >> 33) % stride);
  preemptions++;
  turn(preempt_tid);
  preempting = false;
}
extern "C"
{
  void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
  void __sanitizer_cov_trace_pc_guard(uint32_t *) { preempt(); }
  void __sanitizer_cov_load1(uint8_t *) { preempt(); }
  void __sanitizer_cov_load2(uint16_t *) { preempt(); }
  void __sanitizer_cov_load4(uint32_t *) { preempt(); }
  void __sanitizer_cov_load8(uint64_t *) { preempt(); }
  void __sanitizer_cov_load16(__int128 *) { preempt(); }
  void __sanitizer_cov_store1(uint8_t *) { preempt(); }
  void __sanitizer_cov_store2(uint16_t *) { preempt(); }
  void __sanitizer_cov_store4(uint32_t *) { preempt(); }
  void __sanitizer_cov_store8(uint64_t *) { preempt(); }
  void __sanitizer_cov_store16(__int128 *) { preempt(); }
}
static void finish(int tid)
{
  std::unique_lock<std::mutex> l(mx);
  finished[(size_t) tid] = true;
  cv.notify_all();
}

// --- the plan of a thread ---------------------------------------------------------
enum What { TIMER, EVENT, STREAMS, ASYNC, SERVER, NOTIFY, COMPUTE, RESOLVE };
struct Source { What what; unsigned a, b, c; };
enum How { LOOP, ONCE, ABORT };
struct Phase { How how; unsigned abort_after; std::vector<Source> sources; };
struct Plan { std::vector<Phase> phases; long long clock; bool timer_sleep; };

struct Ctx;
struct Src
{
  Ctx *t; Source s; unsigned index;
  bool done = false;
  uint64_t count = 0, total = 0, set_at = 0;
  uint32_t hash = 2166136261u;
  timer tm; event ev; async as; notify nt; resolver rs;
  std::vector<std::string> dirs; std::vector<int> watches;
  maps names; mapi numbers; list items; vector cells; string text = string_null(); uint64_t rng = 0; bool computing = false; uint64_t released = 0;
  stream a, b;
  size_t sent = 0, got = 0, back = 0;
  void *server = nullptr;
  std::string response;
  unsigned sent_requests = 0, responses = 0;
  long long answered_at = 0;
  std::atomic<int> worked{0};
};
struct Ctx
{
  int tid; const Plan *plan;
  std::vector<std::unique_ptr<Src>> srcs;
  std::string out;
  bool timed = false, aborting = false, aborted = false, in_loop = false;
  unsigned callbacks = 0, abort_after = 0;
  size_t undone = 0;
  long long iteration_clock = 0, start_clock = 0;
};
static SSL_CTX *server_ctx, *client_ctx;
extern "C" void vx_worker_init(void)
{
  server_ctx = SSL_CTX_new(TLS_server_method());
  EVP_PKEY *k = certs::key(0);
  X509 *x = certs::cert(k, 0);
  SSL_CTX_use_certificate(server_ctx, x);
  SSL_CTX_use_PrivateKey(server_ctx, k);
  client_ctx = SSL_CTX_new(TLS_client_method());
  SSL *s = SSL_new(server_ctx);
  SSL_free(s);
}
static __thread Ctx *self;
static void hash(Src &s, const void *p, size_t n) { for (size_t i = 0; i < n; i++) s.hash = (s.hash ^ ((const uint8_t *) p)[i]) * 16777619u; }
static uint8_t pat(uint32_t seed, size_t i) { uint64_t x = (i + 1) * 0x9e3779b97f4a7c15u + seed * 0xbf58476d1ce4e5b9u; return (uint8_t) (x >> 56); }
static std::string pattern(uint32_t seed, size_t at, size_t n) { std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = (char) pat(seed, at + i); return r; }

static uint64_t real_clock() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t) t.tv_sec * 1000000000 + (uint64_t) t.tv_nsec; }
// every callback passes here
static Src &enter(void *state)
{
  Src &s = *(Src *) state;
  Ctx &t = *s.t;
  CHECK(self == &t, "a callback of thread %d runs in thread %d", t.tid, self ? self->tid : -1);
  CHECK(t.in_loop, "thread %d: a callback outside of its loop", t.tid);
  uint64_t now = reactor_now();
  CHECK(now >= (uint64_t) t.iteration_clock && now <= (uint64_t) vx_thread_clock_ns, "thread %d: the loop's time is %lu, its clock was at %lld when the iteration began and is at %lld", t.tid, now, t.iteration_clock, vx_thread_clock_ns);
  turn(t.tid);
  vx_thread_clock_ns += 1000003;
  uint64_t again = reactor_now();
  CHECK(again == now, "thread %d: the loop's time changes inside a callback from %lu to %lu", t.tid, now, again);
  t.callbacks++;
  if (t.aborting && !t.aborted && t.callbacks >= t.abort_after) { t.aborted = true; reactor_abort(); turn(t.tid); }
  return s;
}
static void done(Src &s) { CHECK(!s.done, "thread %d: source %u ends twice", s.t->tid, s.index); s.done = true; s.t->undone--; }
static void timer_cb(reactor_event *e)
{
  Src &s = enter(e->state);
  uint64_t k = (uint64_t) e->data, periods = s.s.b ? 1 + (real_clock() - s.set_at) / ((s.s.c + 1) * 1000ull) : 1;
  CHECK(k >= 1 && s.total + k <= periods, "thread %d: timer %u reports %lu expirations, of at most %lu, %lu of which it has reported before", s.t->tid, s.index, k, periods, s.total);
  s.total += k;
  s.count += k;
  if (s.s.b ? s.count >= s.s.b : true) { timer_destruct(&s.tm); s.count = std::min<uint64_t>(s.count, s.s.b); done(s); }
}
static void event_cb(reactor_event *e)
{
  Src &s = enter(e->state);
  uint64_t k = (uint64_t) e->data;
  CHECK(k >= 1 && s.count + k <= s.total, "thread %d: event %u reports %lu signals, of %lu, %lu of which it has reported before", s.t->tid, s.index, k, s.total, s.count);
  s.count += k;
  if (s.count < s.s.a)
    for (unsigned i = 0; i <= s.s.c % 13; i++) { s.total++; event_signal(&s.ev); }
  if (s.count >= s.s.a) { s.count = s.s.a; event_destruct(&s.ev); done(s); }
}
static void push(Src &s)
{ // the next part from a to b
  size_t n = std::min<size_t>(s.s.b + 1, s.s.a - s.sent);
  std::string d = pattern(s.s.c + s.index, s.sent, n);
  s.sent += n;
  stream_write(&s.a, dat(d));
  stream_flush(&s.a);
}
static void a_cb(reactor_event *e)
{
  Src &s = enter(e->state);
  if (e->type == STREAM_CLOSE) vx::fail("thread %d: stream %u is closed", s.t->tid, s.index);
  data d = stream_read(&s.a);
  hash(s, data_base(d), data_size(d));
  s.back += data_size(d);
  stream_consume(&s.a, data_size(d));
  if (s.back == s.s.a) { stream_destruct(&s.a); stream_destruct(&s.b); done(s); return; }
  if (s.sent < s.s.a && s.back == s.sent) push(s);
}
static void b_cb(reactor_event *e)
{
  Src &s = enter(e->state);
  if (e->type == STREAM_CLOSE) vx::fail("thread %d: stream %u is closed", s.t->tid, s.index);
  data d = stream_read(&s.b);
  std::string x = str(d);
  CHECK(x == pattern(s.s.c + s.index, s.got, x.size()), "thread %d: stream %u receives something else", s.t->tid, s.index);
  s.got += x.size();
  stream_consume(&s.b, x.size());
  stream_write(&s.b, dat(x));
  stream_flush(&s.b);
}
static void async_cb(reactor_event *e)
{
  if (e->type == ASYNC_CALL)
  {
    Src &s = *(Src *) e->state;
    CHECK(self == nullptr, "asynchronous work runs on a loop's thread");
    uint32_t x = s.s.c;
    for (unsigned i = 0; i < s.s.b; i++) x = x * 1664525 + 1013904223;
    s.worked = (int) (x >> 1) | 1;
    return;
  }
  Src &s = enter(e->state);
  CHECK(s.worked, "thread %d: asynchronous call %u is reported before it is done", s.t->tid, s.index);
  hash(s, &s.worked, sizeof(int));
  async_destruct(&s.as);
  done(s);
}
// --- lookups -------------------------------------------------------------------
struct Found { struct addrinfo a; struct sockaddr_in s; };
static int look(const char *host, const char *service, const struct addrinfo *hints, struct addrinfo **result)
{
  if (!host || !service || !*host) return EAI_NONAME;
  Found *f = (Found *) calloc(1, sizeof(Found));
  f->a.ai_family = f->s.sin_family = AF_INET;
  f->a.ai_socktype = hints->ai_socktype;
  f->a.ai_protocol = hints->ai_protocol;
  f->a.ai_flags = hints->ai_flags;
  f->a.ai_addr = (struct sockaddr *) &f->s;
  f->a.ai_addrlen = sizeof f->s;
  inet_aton(host, &f->s.sin_addr);
  f->s.sin_port = htons((uint16_t) atoi(service));
  *result = &f->a;
  return 0;
}
static int unlook(struct addrinfo *a) { free(a); return 1; }
static void lookup(Src &s)
{
  char host[40], service[10];
  snprintf(host, sizeof host, s.s.c % 7 == 6 ? "" : "127.%d.%u.%lu", s.t->tid, s.index, s.count);
  snprintf(service, sizeof service, "%u", s.s.c + (unsigned) s.count);
  resolver_lookup(&s.rs, host, service, AF_INET, s.s.c % 2 ? SOCK_STREAM : SOCK_DGRAM, s.s.c % 2 ? IPPROTO_TCP : IPPROTO_UDP, (int) (s.s.c % 3 + 8 * (unsigned) s.t->tid));
}
static void resolver_cb(reactor_event *e)
{
  Src &s = enter(e->state);
  if (s.s.c % 7 == 6) CHECK(e->type == RESOLVER_FAILURE && !e->data, "thread %d: lookup %u of nothing succeeds", s.t->tid, s.index);
  else
  {
    struct addrinfo *a = (struct addrinfo *) e->data;
    CHECK(e->type == RESOLVER_SUCCESS && a, "thread %d: lookup %u fails", s.t->tid, s.index);
    struct sockaddr_in *i = (struct sockaddr_in *) a->ai_addr;
    char host[40];
    snprintf(host, sizeof host, "127.%d.%u.%lu", s.t->tid, s.index, s.count);
    CHECK(i->sin_addr.s_addr == inet_addr(host) && ntohs(i->sin_port) == (uint16_t) (s.s.c + (unsigned) s.count) && a->ai_socktype == (s.s.c % 2 ? SOCK_STREAM : SOCK_DGRAM) && a->ai_protocol == (s.s.c % 2 ? IPPROTO_TCP : IPPROTO_UDP) && a->ai_flags == (int) (s.s.c % 3 + 8 * (unsigned) s.t->tid),
          "thread %d: lookup %lu of %u finds %s port %u type %d protocol %d flags %d, expected %s port %u", s.t->tid, s.count, s.index, inet_ntoa(i->sin_addr), ntohs(i->sin_port), a->ai_socktype, a->ai_protocol, a->ai_flags, host, s.s.c + (unsigned) s.count);
  }
  s.count++;
  if (s.count >= s.s.a) { resolver_destruct(&s.rs); done(s); return; }
  lookup(s);
}
// --- the file system ----------------------------------------------------------
static void touch(Src &s)
{ // the next file
  std::string p = s.dirs[s.count % s.dirs.size()] + "/f" + std::to_string(s.count);
  int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
  CHECK(fd >= 0, "%s: %m", p.c_str());
  close(fd);
}
static void tidy(Src &s)
{
  for (uint64_t i = 0; i <= s.count; i++) unlink((s.dirs[i % s.dirs.size()] + "/f" + std::to_string(i)).c_str());
  for (auto &d : s.dirs) rmdir(d.c_str());
}
static void notify_cb(reactor_event *e)
{
  Src &s = enter(e->state);
  notify_event *n = (notify_event *) e->data;
  size_t i = s.count % s.dirs.size();
  CHECK(n->path && n->path == s.dirs[i] && n->id == s.watches[i], "thread %d: watch %u reports %d %s, expected %d %s", s.t->tid, s.index, n->id, vx::quote(n->path ? n->path : "").c_str(), s.watches[i], s.dirs[i].c_str());
  CHECK(n->name == "f" + std::to_string(s.count) && n->mask == IN_CREATE, "thread %d: watch %u reports %s (%x), expected file %lu", s.t->tid, s.index, vx::quote(n->name).c_str(), n->mask, s.count);
  s.count++;
  if (s.count >= s.s.a) { notify_destruct(&s.nt); tidy(s); done(s); return; }
  touch(s);
}
// --- the library's values, used in a callback ---------------------------------------
static __thread Src *computed;
static void freed_name(maps_entry *e) { computed->released += e->value * 3 + strlen(e->key); free(e->key); }
static void freed_number(mapi_entry *e) { computed->released += e->value ^ e->key; }
static void freed_item(void *p) { computed->released += *(uint32_t *) p; }
static int same_item(void *a, void *b) { return *(uint32_t *) a - *(uint32_t *) b != 0; }
static uint32_t draw(Src &s, uint32_t n) { s.rng = s.rng * 6364136223846793005u + 1442695040888963407u; return (uint32_t) (s.rng >> 33) % n; }
static void add(Src &s, uint64_t x) { hash(s, &x, sizeof x); }
static void compute(Src &s)
{
  char b[200];
  computed = &s;
  for (unsigned i = 0; i < s.s.b; i++)
    switch (draw(s, 16))
    {
    case 0: snprintf(b, sizeof b, "key-%u-of-%d", draw(s, 40), s.t->tid); maps_insert(&s.names, strdup(b), draw(s, 1000) + 1, freed_name); break;
    case 1: snprintf(b, sizeof b, "key-%u-of-%d", draw(s, 40), s.t->tid); add(s, maps_at(&s.names, b)); if (draw(s, 3) == 0) maps_erase(&s.names, b, freed_name); add(s, maps_size(&s.names)); break;
    case 2: mapi_insert(&s.numbers, draw(s, 50) + 1, draw(s, 1000), freed_number); break;
    case 3: { uint32_t k = draw(s, 50) + 1; add(s, mapi_at(&s.numbers, k)); if (draw(s, 3) == 0) mapi_erase(&s.numbers, k, freed_number); add(s, mapi_size(&s.numbers)); break; }
    case 4: { uint32_t x = draw(s, 30); if (x % 2) list_push_back(&s.items, &x, sizeof x); else list_push_front(&s.items, &x, sizeof x); break; }
    case 5: { uint32_t x = draw(s, 30), *p = (uint32_t *) list_find(&s.items, same_item, &x); add(s, p != nullptr); if (p) list_erase(p, freed_item); void *q; list_foreach(&s.items, q) add(s, *(uint32_t *) q); break; }
    case 6: { uint32_t x = draw(s, 100); vector_insert(&s.cells, draw(s, (uint32_t) vector_size(&s.cells) + 1), &x); break; }
    case 7: if (!vector_empty(&s.cells)) { vector_erase(&s.cells, draw(s, (uint32_t) vector_size(&s.cells)), freed_item); hash(s, vector_data(&s.cells), 4 * vector_size(&s.cells)); } break;
    case 8: { std::string d = pattern(draw(s, 100), 0, draw(s, 300)); s.text = draw(s, 2) ? string_append_data(s.text, dat(d)) : string_prepend_data(s.text, dat(d)); hash(s, s.text, string_size(s.text)); break; }
    case 9: { std::string from(1, (char) draw(s, 256)), to = pattern(draw(s, 100), 0, draw(s, 4)); s.text = string_replace_all_data(s.text, dat(from), dat(to)); if (string_size(s.text) > 4000) s.text = string_resize(s.text, 40); hash(s, s.text, string_size(s.text)); break; }
    case 10: { uint32_t x = draw(s, 1u << draw(s, 31)); utility_u32_toa(x, b); add(s, utility_u32_len(x)); hash(s, b, strlen(b)); break; }
    case 11: { std::string d = pattern(draw(s, 100), 0, draw(s, 150)); add(s, hash_data(d.data(), d.size())); add(s, hash_uint64(s.rng)); break; }
    case 12:
    {
      std::string q = "PUT /" + std::to_string(draw(s, 1000000)) + " HTTP/1.1\r\n";
      size_t n = draw(s, 8), count = 16;
      for (size_t k = 0; k < n; k++) q += "Field-" + std::to_string(k) + ": " + std::to_string(draw(s, 100000)) + "\r\n";
      q += "\r\n";
      data method, target;
      http_field f[16];
      add(s, (uint64_t) http_read_request_data(dat(q), &method, &target, f, &count));
      add(s, count);
      CHECK(str(method) == "PUT" && data_base(target) == q.data() + 4, "thread %d: a request is parsed differently", s.t->tid);
      for (size_t k = 0; k < count; k++) { hash(s, data_base(f[k].name), data_size(f[k].name)); hash(s, data_base(f[k].value), data_size(f[k].value)); }
      std::string name = "fIELD-" + std::to_string(draw(s, 8));
      data v = http_field_lookup(f, count, dat(name));
      hash(s, data_base(v), data_size(v));
      break;
    }
    case 14: if (draw(s, 4) == 0) vector_clear(&s.cells, freed_item); if (draw(s, 4) == 0) list_clear(&s.items, freed_item); add(s, s.released); break;
    case 15: { std::string x = pattern(draw(s, 100), 0, 1 + draw(s, 2)); data d = string_find_data(s.text, dat(x)); add(s, data_size(d) ? (uint64_t) ((const char *) data_base(d) - s.text) : 1u << 30); s.text = string_replace_data(s.text, dat(x), data_string("**")); hash(s, s.text, string_size(s.text)); break; }
    case 13:
    {
      stream o;
      stream_construct(&o, nullptr, nullptr);
      std::string d = pattern(draw(s, 100), 0, draw(s, 200)), host = "h" + std::to_string(draw(s, 1000));
      if (draw(s, 2)) http_write_request(&o, data_string("POST"), data_string("/x"), dat(host), data_string("text/plain"), dat(d));
      else http_write_response(&o, dat(host), data_string("some day"), data_string("text/plain"), dat(d));
      hash(s, buffer_data(&o.output), buffer_size(&o.output));
      stream_destruct(&o);
      break;
    }
    }
}
static void open_values(Src &s) { s.computing = true; s.rng = s.s.c; maps_construct(&s.names); mapi_construct(&s.numbers); list_construct(&s.items); vector_construct(&s.cells, sizeof(uint32_t)); s.text = string_null(); }
static void close_values(Src &s)
{
  if (!s.computing) return;
  s.computing = false;
  computed = &s;
  maps_destruct(&s.names, freed_name); mapi_destruct(&s.numbers, freed_number); list_destruct(&s.items, freed_item); vector_destruct(&s.cells, freed_item); string_free(s.text);
  add(s, s.released);
}
static void compute_cb(reactor_event *e)
{
  Src &s = enter(e->state);
  compute(s);
  s.count++;
  if (s.count >= s.s.a) { event_destruct(&s.ev); close_values(s); done(s); }
  else event_signal(&s.ev);
}
static void server_cb(reactor_event *e)
{
  Src &s = enter(e->state);
  void *rq = (void *) e->data;
  char want[64];
  snprintf(want, sizeof want, "/t%d/s%u/%lu", s.t->tid, s.index, s.count);
  CHECK(str(srv_target(rq)) == want, "thread %d: server %u receives %s, expected %s", s.t->tid, s.index, str(srv_target(rq)).c_str(), want);
  s.count++;
  std::string body = pattern(s.s.c, s.count, s.s.b);
  if (s.s.c % 4 == 0) vx_thread_clock_ns += 3000000000; // (an open server's timer does not follow this clock)
  s.answered_at = vx_thread_clock_ns;
  srv_ok(rq, data_string("text/plain"), dat(body));
}
static void request(Src &s)
{
  char b[100];
  int n = snprintf(b, sizeof b, "GET /t%d/s%u/%u HTTP/1.1\r\nHost: x\r\n\r\n", s.t->tid, s.index, s.sent_requests++);
  stream_write(&s.a, data_construct(b, (size_t) n));
  stream_flush(&s.a);
}
static void client_cb(reactor_event *e)
{
  Src &s = enter(e->state);
  Ctx &t = *s.t;
  if (e->type == STREAM_CLOSE) vx::fail("thread %d: client %u is closed", t.tid, s.index);
  data d = stream_read(&s.a);
  s.response += str(d);
  stream_consume(&s.a, data_size(d));
  while (true)
  {
    size_t end = s.response.find("\r\n\r\n");
    if (end == std::string::npos || s.response.size() < end + 4 + s.s.b) break;
    std::string h = s.response.substr(0, end + 2), body = s.response.substr(end + 4, s.s.b);
    s.response.erase(0, end + 4 + s.s.b);
    s.responses++;
    size_t at = h.find("\r\nDate: ");
    CHECK(at != std::string::npos, "thread %d: a response without date", t.tid);
    struct tm tm = {};
    CHECK(strptime(h.c_str() + at + 8, "%a, %d %b %Y %H:%M:%S GMT", &tm), "thread %d: the date is %s", t.tid, vx::quote(h.substr(at + 8, 31)).c_str());
    long long x = timegm(&tm);
    char same[40];
    strftime(same, sizeof same, "%a, %d %b %Y %H:%M:%S GMT\r\n", &tm); // timegm corrects the week day
    CHECK(h.compare(at + 8, 31, same) == 0, "thread %d: the date is %s", t.tid, vx::quote(h.substr(at + 8, 31)).c_str());
    CHECK(x >= t.start_clock / 1000000000 && x <= vx_thread_clock_ns / 1000000000, "thread %d: the date is %s, but the thread's clock is between %lld and %lld", t.tid, h.substr(at + 8, 29).c_str(), t.start_clock / 1000000000, vx_thread_clock_ns / 1000000000);
    if (!t.timed) CHECK(x >= s.answered_at / 1000000000 - 1, "thread %d: the date is %s, but the response was given at %lld", t.tid, h.substr(at + 8, 29).c_str(), s.answered_at / 1000000000);
    h.erase(at, 2 + 6 + 29);
    hash(s, h.data(), h.size());
    CHECK(body == pattern(s.s.c, s.responses, s.s.b), "thread %d: client %u receives a wrong body", t.tid, s.index);
    hash(s, body.data(), body.size());
  }
  if (s.responses == s.s.a) { stream_destruct(&s.a); srv_destruct(s.server); srv_free(s.server); s.server = nullptr; done(s); return; }
  if (s.sent_requests < s.s.a && s.sent_requests == s.responses) request(s);
}

static void start(Src &s)
{
  int p[2];
  switch (s.s.what)
  {
  case TIMER:
    timer_construct(&s.tm, timer_cb, &s);
    s.set_at = real_clock();
    timer_set(&s.tm, s.s.a * 1000ull, s.s.b ? (s.s.c + 1) * 1000ull : 0);
    break;
  case EVENT:
    event_construct(&s.ev, event_cb, &s);
    event_open(&s.ev);
    for (s.total = 1; s.total <= s.s.c % 11; s.total++) event_signal(&s.ev);
    event_signal(&s.ev); // (signals may be merged)
    break;
  case STREAMS:
    CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "socketpair");
    stream_construct(&s.a, a_cb, &s);
    stream_construct(&s.b, b_cb, &s);
    stream_open(&s.a, p[0], STREAM_READ, s.s.c % 3 == 0 ? client_ctx : nullptr);
    stream_open(&s.b, p[1], STREAM_READ, s.s.c % 3 == 0 ? server_ctx : nullptr);
    push(s);
    break;
  case NOTIFY:
    notify_construct(&s.nt, notify_cb, &s);
    for (unsigned i = 0; i <= s.s.c % 3; i++)
    {
      s.dirs.push_back(std::string(vx::scratch()) + "/n" + std::to_string(s.t->tid) + "." + std::to_string(s.index) + "." + std::to_string(i));
      CHECK(mkdir(s.dirs[i].c_str(), 0700) == 0, "%s: %m", s.dirs[i].c_str());
      s.watches.push_back(notify_watch(&s.nt, (char *) s.dirs[i].c_str(), IN_CREATE));
    }
    touch(s);
    break;
  case RESOLVE:
    resolver_construct(&s.rs, resolver_cb, &s);
    lookup(s);
    break;
  case COMPUTE:
    open_values(s);
    event_construct(&s.ev, compute_cb, &s);
    event_open(&s.ev);
    event_signal(&s.ev);
    break;
  case ASYNC:
    async_construct(&s.as, async_cb, &s);
    async_call(&s.as);
    break;
  case SERVER:
  {
    s.server = srv_new(server_cb, &s);
    int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
    struct sockaddr a = {};
    a.sa_family = AF_UNIX;
    struct sockaddr_un name;
    socklen_t n = sizeof name;
    CHECK(bind(fd, &a, sizeof(sa_family_t)) == 0 && listen(fd, 8) == 0 && getsockname(fd, (struct sockaddr *) &name, &n) == 0, "listen: %m");
    if (s.s.c % 4) srv_open(s.server, fd, nullptr);
    stream_construct(&s.a, client_cb, &s);
    if (s.s.c % 2 == 0 || s.s.c % 4 == 0)
    {
      CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "socketpair");
      srv_accept(s.server, p[0]);
    }
    else
    {
      p[1] = socket(AF_UNIX, SOCK_STREAM, 0);
      CHECK(connect(p[1], (struct sockaddr *) &name, n) == 0, "connect: %m");
      fcntl(p[1], F_SETFL, O_NONBLOCK);
    }
    if (s.s.c % 4 == 0) close(fd);
    stream_open(&s.a, p[1], STREAM_READ, nullptr);
    request(s);
    break;
  }
  }
}
static void stop(Src &s)
{ // of an aborted loop
  if (s.done) return;
  switch (s.s.what)
  {
  case TIMER: timer_destruct(&s.tm); break;
  case EVENT: event_destruct(&s.ev); break;
  case STREAMS: stream_destruct(&s.a); stream_destruct(&s.b); break;
  case ASYNC: async_destruct(&s.as); break;
  case NOTIFY: notify_destruct(&s.nt); tidy(s); break;
  case RESOLVE: resolver_destruct(&s.rs); break;
  case COMPUTE: event_destruct(&s.ev); close_values(s); break;
  case SERVER: stream_destruct(&s.a); srv_destruct(s.server); srv_free(s.server); break;
  }
}
static std::string run(int tid, const Plan &plan)
{
  Ctx t;
  t.tid = tid;
  t.plan = &plan;
  self = &t;
  loop_thread = true;
  preempt_rng = (uint64_t) tid * 7919 + stride;
  preempt_left = stride + quiet;
  preempt_tid = stride ? tid : -1;
  vx_thread_clock_ns = t.start_clock = plan.clock;
  char b[100];
  for (auto &ph : plan.phases)
  {
    turn(tid);
    reactor_construct();
    t.srcs.clear();
    t.callbacks = 0;
    t.aborting = ph.how == ABORT; t.aborted = false; t.abort_after = ph.abort_after;
    t.undone = ph.sources.size();
    t.timed = false;
    for (auto &x : ph.sources) t.timed |= x.what == SERVER && x.c % 4;
    for (auto &x : ph.sources) { auto *s = new Src; t.srcs.emplace_back(s); s->t = &t; s->s = x; s->index = (unsigned) t.srcs.size() - 1; start(*s); turn(tid); vx_thread_clock_ns += 1000003; }
    if (ph.how != ONCE)
    {
      t.iteration_clock = plan.clock; // an iteration of the loop begins where nobody sees it
      t.in_loop = true;
      reactor_loop();
      t.in_loop = false;
      CHECK(t.aborted || t.undone == 0, "thread %d: the loop ended, but %zu of its %zu sources are still active", tid, t.undone, t.srcs.size());
    }
    else
      while (t.undone)
      {
        turn(tid);
        vx_thread_clock_ns += 1000003;
        t.iteration_clock = vx_thread_clock_ns;
        t.in_loop = true;
        reactor_loop_once();
        t.in_loop = false;
        uint64_t now = reactor_now();
        CHECK(now >= (uint64_t) t.iteration_clock && now <= (uint64_t) vx_thread_clock_ns, "thread %d: the loop's time is %lu after an iteration, the thread's clock was between %lld and %lld", tid, now, t.iteration_clock, vx_thread_clock_ns);
      }
    for (auto &s : t.srcs)
    {
      if (t.aborting) { turn(tid); stop(*s); continue; }
      snprintf(b, sizeof b, "%d:%lu:%08x:%zu:%u ", s->s.what, s->s.what == TIMER ? s->count : s->count, s->hash, s->back, s->responses);
      t.out += b;
    }
    turn(tid);
    reactor_destruct();
    t.out += "; ";
    vx_thread_clock_ns += 1000000007;
  }
  self = nullptr;
  preempt_tid = -1;
  vx_thread_clock_ns = 0;
  return t.out;
}
static Plan some_plan(int tid, int only)
{
  Plan p;
  p.clock = (1 + tid) * 1000000000LL * 86400 * 365 * 5 + (long long) vx::below(1000000000);
  size_t n = 1 + vx::below(3);
  for (size_t i = 0; i < n; i++)
  {
    Phase ph;
    ph.how = (How) vx::weighted({4, 3, 2});
    ph.abort_after = 1 + (unsigned) vx::below(10);
    size_t m = 1 + vx::below(5);
    for (size_t k = 0; k < m; k++)
    {
      Source s;
      s.what = only >= 0 ? (What) only : (What) vx::weighted({3, 4, 4, 2, 4, 1, 3, 1});
      s.c = (unsigned) vx::below(1000);
      switch (s.what)
      {
      case TIMER: s.a = (unsigned) vx::bits(11); s.b = vx::chance(1, 2) ? 0 : 1 + (unsigned) vx::below(vx::chance(1, 3) ? 200 : 4); if (s.b > 4 && vx::chance(1, 2)) { s.a = 0; s.c = (unsigned) vx::below(10); } break;
      case EVENT: s.a = 1 + (unsigned) vx::below(20); s.b = (unsigned) vx::below(s.a); break;
      case STREAMS: s.a = 1 + (unsigned) vx::size(60000); s.b = std::max((unsigned) vx::size(20000), s.a / 20); break;
      case RESOLVE: s.a = 1 + (unsigned) vx::below(6); break;
      case NOTIFY: s.a = 1 + (unsigned) vx::below(5); break;
      case COMPUTE: s.a = 1 + (unsigned) vx::below(8); s.b = (unsigned) vx::size(30); break;
      case ASYNC: s.a = 0; s.b = (unsigned) vx::size(100000); break;
      case SERVER: s.a = 1 + (unsigned) vx::below(12); s.b = (unsigned) vx::size(3000); break;
      }
      ph.sources.push_back(s);
    }
    p.phases.push_back(ph);
  }
  return p;
}
void vx_case()
{
  vx_getaddrinfo_hook = look;
  vx_freeaddrinfo_hook = unlook;
  size_t n = 2 + vx::below(5);
  int only = vx::chance(1, 4) ? (int) vx::below(8) : -1; // one kind of source everywhere
  std::vector<Plan> plans;
  std::vector<std::string> alone(n), together(n);
  static const char *names[] = {"timer", "event", "streams", "async", "server", "notify", "compute", "resolve"}, *hows[] = {"run", "step", "abort"};
  for (size_t i = 0; i < n; i++)
  {
    plans.push_back(some_plan((int) i, only));
    for (auto &p : plans[i].phases) { std::string l; for (auto &s : p.sources) { char b[80]; snprintf(b, sizeof b, " %s(%u,%u,%u)", names[s.what], s.a, s.b, s.c); l += b; } LOG("thread %zu: %s%s", i, hows[p.how], l.c_str()); }
  }
  size_t length = vx::chance(1, 6) ? 0 : vx::below(400);
  stride = vx::chance(1, 4) ? 0 : 1u << vx::below(14);
  quiet = stride && vx::chance(1, 2) ? (unsigned) vx::bits(13) : 0;
  if (stride) length *= only == COMPUTE ? 12 : 3;
  std::vector<int> order;
  std::string l;
  while (order.size() < length)
  {
    int who = (int) vx::below(n);
    size_t run = 1 + vx::below(3);
    for (size_t k = 0; k < run; k++) { order.push_back(who); l += (char) ('0' + who); }
  }
  LOG("turns %s%s", l.c_str(), stride ? (", inside the library at about every " + std::to_string((stride + 1) / 2) + ". access" + (quiet ? " after " + std::to_string(quiet) : "")).c_str() : "");
  int fds0 = vx::open_fds();
  for (size_t i = 0; i < n; i++)
  {
    turns.clear(); turn_at = 0; finished.assign(n, false);
    std::thread([&] { alone[i] = run((int) i, plans[i]); }).join();
  }
  turns = order; turn_at = 0; finished.assign(n, false); switches = 0; last_turn = -1;
  std::vector<std::thread> threads;
  for (size_t i = 0; i < n; i++) threads.emplace_back([&, i] { together[i] = run((int) i, plans[i]); finish((int) i); });
  for (auto &t : threads) t.join();
  for (size_t i = 0; i < n; i++) CHECK(alone[i] == together[i], "thread %zu alone: %s; with others: %s", i, alone[i].c_str(), together[i].c_str());
  CHECK(vx::open_fds() == fds0, "%d descriptors are left open", vx::open_fds() - fds0);
  CHECK(vx_addrinfo_live == 0, "%ld address lists leaked", vx_addrinfo_live);
  CHECK(vx::vx_live_blocks() == 0, "%ld blocks leaked", vx::vx_live_blocks());
  vx::count("turns taken", turn_at);
  vx::count("turns inside the library", preemptions.exchange(0));
  if (switches >= 4) vx::nontrivial();
}
