// C19: timers never fire early, never miss, honour re-arming and clearing.
#include "common.h"
#include "fds.h"
#include <ctime>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C19", "timers are exact", 20000, 500000,
  "one case runs one to eight timers with delays and intervals of 0 to a few (scaled) milliseconds; a generated program arms, re-arms, clears, destroys and reconstructs any timer, and sometimes lets time "
  "pass, between iterations and inside callbacks; the clock is divided by a generated factor so that delays of seconds and minutes take milliseconds; non-trivial: a timer was re-armed or "
  "cleared while its expiration was already due, or inside a callback",
  20, 60, true, "Real timers: lower bounds and totals are exact, the only upper bound is that an expiration is delivered within 20 s"};

struct T
{
  timer *t = nullptr;
  bool armed = false;
  long long set_before = 0, set_after = 0; // scaled monotonic time around the call of timer_set
  unsigned long long delay = 0, interval = 0, total = 0;
  void *token = nullptr;
};
static std::vector<std::unique_ptr<T>> ts;
static std::map<void *, T *> by_token;
static std::vector<void *> tokens;
static bool in_loop, interesting, collision;
static size_t budget;
static long long loop_entered;

static long long raw() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
// elapsed periods of a timer set between a and b (raw), seen at raw time now: at most / at least
static unsigned long long at_most(const T &t, long long now)
{
  long long d = (long long) (t.delay / (unsigned long long) vx_timer_scale), el = now - t.set_before;
  if (el < d) return 0;
  unsigned long long iv = t.interval / (unsigned long long) vx_timer_scale;
  if (t.interval && !iv) iv = 1;
  return t.interval ? 1 + (unsigned long long) (el - d) / iv : 1;
}
static unsigned long long at_least(const T &t, long long then)
{
  long long d = (long long) (t.delay / (unsigned long long) vx_timer_scale) + 1, el = then - t.set_after;
  if (el < d) return 0;
  unsigned long long iv = t.interval / (unsigned long long) vx_timer_scale;
  if (t.interval && !iv) iv = 1;
  return t.interval ? 1 + (unsigned long long) (el - d) / iv : 1;
}

static void callback(reactor_event *);
static const char *I() { return in_loop ? "    " : ""; }
static void construct(T &t)
{
  t.t = (timer *) malloc(sizeof(timer));
  t.token = malloc(1);
  tokens.push_back(t.token);
  by_token[t.token] = &t;
  timer_construct(t.t, callback, t.token);
  t.armed = false;
}
static void note(T &t)
{
  if (in_loop) interesting = true;
  if (t.armed && at_most(t, raw()) > t.total) { interesting = true; collision = true; vx::count("changed while due"); }
}
static unsigned long long duration()
{
  // scaled: what is long becomes short
  unsigned long long ns;
  switch (vx::weighted({3, 4, 2, 1}))
  {
  case 0: ns = vx::below(3); break;
  case 1: ns = 100000 + vx::below(2000000); break;
  case 2: ns = vx::below(500000); break;
  default: ns = 1000000 * (1 + vx::below(4)); break;
  }
  unsigned long long s = (unsigned long long) vx_timer_scale;
  ns *= s;
  if (s > 1 && vx::chance(1, 3)) ns = ns / 1000000000 * 1000000000 + (vx::chance(1, 2) ? 999999999 : 0); // whole seconds, and one nanosecond before the next
  return ns;
}
static void set(T &t, bool far)
{
  note(t);
  t.delay = far ? std::min<unsigned long long>(4000000000000000000ULL, (3600ULL + vx::bits(28)) * 1000000000ULL * (unsigned long long) vx_timer_scale) : duration();
  t.interval = vx::chance(1, 2) ? 0 : duration();
  if (t.interval && t.interval < 50000ULL * (unsigned long long) vx_timer_scale && !vx::chance(1, 6)) t.interval += 50000ULL * (unsigned long long) vx_timer_scale;
  if (vx::chance(1, 8)) t.interval = (vx::chance(1, 2) ? 3600ULL : std::min<unsigned long long>(3600ULL + vx::bits(28), 9000000000000000000ULL / 1000000000ULL / (unsigned long long) vx_timer_scale)) * 1000000000ULL * (unsigned long long) vx_timer_scale;
  if (vx::chance(1, 30)) t.interval = std::min<unsigned long long>((1ULL << (8 + vx::below(25))) + vx::below(3), 9000000000000000000ULL / 1000000000ULL / (unsigned long long) vx_timer_scale) * 1000000000ULL;
  LOG("%sset %zu delay %llu interval %llu", I(), (size_t) (&t - ts[0].get()), t.delay, t.interval);
  t.set_before = raw();
  timer_set(t.t, t.delay, t.interval);
  t.set_after = raw();
  t.total = 0;
  t.armed = true;
  vx::count(far ? "set far" : t.interval ? "set periodic" : "set once");
}

static void program(T *self, unsigned mean)
{
  while (budget && vx::more(mean))
  {
    budget--;
    T &t = self && vx::chance(1, 2) ? *self : *ts[vx::below(ts.size())];
    if (!t.t) { construct(t); continue; }
    switch (vx::weighted({6, 2, 1, 2, 1}))
    {
    case 0: set(t, false); break;
    case 1: LOG("%sclear", I()); note(t); timer_clear(t.t); t.armed = false; vx::count("clear"); break;
    case 2: LOG("%sdestroy", I()); note(t); timer_destruct(t.t); memset((void *) t.t, 0xee, sizeof *t.t); free(t.t); t.t = nullptr; by_token.erase(t.token); t.armed = false; vx::count("destroy"); break;
    case 3: { long ns = (long) vx::below(1500000); LOG("%swait %ld ns", I(), ns); long long until = raw() + ns; while (raw() < until) usleep(ns > 200000 ? 50 : 0); break; }
    case 4: set(t, true); break;
    }
  }
}

static void callback(reactor_event *e)
{
  long long now = raw();
  CHECK(in_loop, "a timer fires outside of an iteration");
  auto it = by_token.find(e->state);
  CHECK(it != by_token.end(), "a destroyed timer fires");
  T &t = *it->second;
  CHECK(e->type == TIMER_EXPIRATION, "event type %d", e->type);
  CHECK(t.armed, "a cleared timer fires");
  CHECK(e->data > 0, "a timer fires with no expirations");
  t.total += e->data;
  LOG("  fires %llu times (total %llu) after %lld ns", (unsigned long long) e->data, t.total, now - t.set_before);
  unsigned long long most = at_most(t, now), least = at_least(t, loop_entered);
  CHECK(t.total <= most, "timer with delay %llu and interval %llu (divided by %ld) has fired %llu times %lld ns after it was set, at most %llu periods have elapsed", t.delay, t.interval, vx_timer_scale, t.total, now - t.set_before, most);
  CHECK(t.total >= least, "timer with delay %llu and interval %llu (divided by %ld) has fired only %llu times in total, but %llu periods had elapsed", t.delay, t.interval, vx_timer_scale, t.total, least);
  vx::count(e->data > 1 ? "several expirations" : "one expiration");
  program(&t, 1);
}

static bool idle;
static int on_idle(void) { idle = true; return 0; }

void vx_case()
{
  ts.clear();
  by_token.clear();
  tokens.clear();
  in_loop = interesting = collision = false;
  budget = 60;
  ZeroFd zero;
  int fds0 = vx::open_fds();
  static const long scales[] = {1, 1, 1000, 60000};
  vx_timer_scale = scales[vx::below(4)];
  vx_idle_hook = on_idle;
  vx_idle_grace_ms = 1;
  reactor_construct();
  zero.later(fds0);
  size_t n = 1 + vx::below(8);
  for (size_t i = 0; i < n; i++) { ts.emplace_back(new T); construct(*ts[i]); }
  LOG("%zu timers, time divided by %ld", n, vx_timer_scale);
  size_t rounds = 1 + vx::below(10);
  bool finishing = false;
  long long finish_by = 0;
  for (size_t k = 0;; k++)
  {
    if (!finishing) program(nullptr, 3);
    if (k == rounds)
    {
      // from here on only wait: every timer that is due soon must still deliver
      finishing = true;
      budget = 0;
      finish_by = raw();
      for (auto &t : ts) if (t->armed && t->delay / (unsigned long long) vx_timer_scale < 1000000000ULL) finish_by = std::max<long long>(finish_by, t->set_after + (long long) (t->delay / (unsigned long long) vx_timer_scale));
    }
    if (finishing)
    {
      bool missing = false;
      for (auto &t : ts) if (t->armed && t->total < std::min<unsigned long long>(1, at_least(*t, finish_by + 1000000))) missing = true;
      if (!missing && raw() > finish_by) break;
      if (missing) CHECK(raw() < finish_by + 20000000000LL, "a timer that was due 20 s ago has not fired");
    }
    idle = false;
    loop_entered = raw();
    bool due = false;
    for (auto &t : ts) if (t->armed && at_least(*t, loop_entered) > t->total) due = true;
    (void) due;
    in_loop = true;
    reactor_loop_once();
    in_loop = false;
  }
  private_fds("[timerfd]");
  for (auto &t : ts) if (t->t) { timer_destruct(t->t); free(t->t); }
  reactor_destruct();
  for (auto t : tokens) free(t);
  CHECK(vx::open_fds() == fds0, "%d descriptors open, expected %d", vx::open_fds(), fds0);
  vx_timer_scale = 1;
  if (interesting) vx::nontrivial();
}
