// C17: when the loop returns, and what its clock says.
#include "common.h"
#include "fds.h"
#include <csignal>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C17", "the loop ends exactly when it should; its clock is fresh", 800000, 25000000,
  "one case registers descriptors and runs the loop one to three times (also one iteration at a time), while generated programs in callbacks and while the loop is blocked add and remove registrations, make descriptors ready, abort, "
  "raise interrupt, termination and other signals, move a controlled clock to arbitrary values and read the loop's clock; non-trivial: the loop was aborted by a callback or signal while other "
  "handlers of the batch were pending, or the clock moved within an iteration between two readings"};

struct Slot { reactor_handler h; int fd = -1; bool registered = false, level_ready = false, due = false, called = false; };
static std::vector<std::unique_ptr<Slot>> slots;
static bool aborted, interesting, dispatching;
static size_t registered, idles, budget;
static long long batch_clock_reading;        // reading of the loop's clock in this iteration, -1: none
static std::vector<long long> clock_values;  // values the clock had since the iteration started
static bool iteration_open;
static size_t iterations;

static void set_clock(long long ns) { vx_frozen_ns = ns; clock_values.push_back(ns); }
static long long some_time()
{
  switch (vx::weighted({4, 2, 2, 1}))
  {
  case 0: return vx_frozen_ns + 1 + (long long) vx::bits(40);
  case 1: return 1000000000LL * (long long) (1 + vx::bits(33)) + (long long) vx::below(1000000000);
  case 2: return 1000000000LL * (long long) (1 + vx::bits(33)) + (vx::chance(1, 2) ? 999999999 : 0);
  default: return 1 + (long long) vx::bits(31);
  }
}

static void read_clock(bool outside = false) // outside: between iterations, where it may be refreshed
{
  uint64_t t = reactor_now();
  LOG("    now %llu", (unsigned long long) t);
  if (batch_clock_reading >= 0 && !outside) CHECK((long long) t == batch_clock_reading, "the loop's clock changed within an iteration from %lld to %llu", batch_clock_reading, (unsigned long long) t);
  else CHECK(std::find(clock_values.begin(), clock_values.end(), (long long) t) != clock_values.end(), "the loop's clock says %llu ns, but since the iteration's wait ended the real time was %lld..%lld", (unsigned long long) t, clock_values.front(), clock_values.back());
  if (batch_clock_reading >= 0 && vx_frozen_ns != batch_clock_reading) { interesting = true; vx::count("clock moved between two readings"); }
  batch_clock_reading = (long long) t;
}

static void fill(Slot &s, bool on)
{
  uint64_t v = 1;
  if (on) CHECK(write(s.fd, &v, sizeof v) == sizeof v, "write");
  else if (s.level_ready) CHECK(read(s.fd, &v, sizeof v) == sizeof v, "read");
  s.level_ready = on;
}
static void on_event(reactor_event *e);
static void add(Slot &s)
{
  LOG("    add %d", s.fd);
  reactor_handler_construct(&s.h, on_event, &s);
  reactor_add(&s.h, s.fd, EPOLLIN);
  s.registered = true;
  s.due = false;
  registered++;
}
static void remove(Slot &s)
{
  LOG("    remove %d", s.fd);
  reactor_delete(&s.h, s.fd);
  s.registered = s.due = false;
  registered--;
}
static int other_signals;
static void count_signal(int) { other_signals++; }

static void do_abort(unsigned how)
{
  size_t pending = 0;
  for (auto &s : slots) pending += s->due && !s->called;
  aborted = true;
  switch (how)
  {
  case 0: LOG("    abort"); reactor_abort(); break;
  case 1: LOG("    SIGTERM"); raise(SIGTERM); break;
  case 2: LOG("    SIGINT"); raise(SIGINT); break;
  }
  if (dispatching && pending) { interesting = true; vx::count("aborted inside a batch"); }
}

static void end_iteration()
{
  if (!iteration_open) return;
  iteration_open = false;
  size_t due = 0;
  for (auto &s : slots) due += s->due;
  (void) due;
  for (auto &s : slots) CHECK(!s->due || s->called, "descriptor %d was ready and its handler was not called before the loop went on or returned", s->fd);
}
static long mark = -1; // value of vx_epoll_calls in the current iteration
static void maybe_new_iteration()
{
  if (vx_epoll_calls == mark) return;
  end_iteration();
  mark = vx_epoll_calls;
  batch_clock_reading = -1;
  clock_values.assign(1, vx_frozen_ns);
}

static void on_event(reactor_event *e)
{
  Slot &s = *(Slot *) e->state;
  maybe_new_iteration();
  if (!iteration_open)
  {
    iteration_open = true;
    iterations++;
    if (batch_clock_reading < 0) clock_values.assign(1, vx_frozen_ns); // not from before the wait
    for (auto &t : slots) { t->called = false; t->due = t->registered && t->level_ready; }
  }
  if (budget) budget--;
  CHECK(s.registered && s.due && !s.called, "handler of descriptor %d called although it is %s", s.fd, s.registered ? "not ready" : "not registered");
  s.called = true;
  dispatching = true;
  LOG("  call %d", s.fd);
  if (vx::chance(1, 2)) read_clock();
  while (budget && vx::more(2))
  {
    budget--;
    Slot &t = vx::chance(1, 3) ? s : *slots[vx::below(slots.size())];
    switch (vx::weighted({4, 2, 3, 3, 3, 2, 1, 2}))
    {
    case 0: if (t.level_ready) { LOG("    drain %d", t.fd); fill(t, false); } break;
    case 1: if (!t.registered) add(t); break;
    case 2: if (t.registered) remove(t); break;
    case 3: { long long t2 = some_time(); LOG("    clock becomes %lld", t2); set_clock(t2); break; }
    case 4: read_clock(); break;
    case 5: if (vx::chance(1, 3)) do_abort(vx::below(3)); break;
    case 6: LOG("    SIGUSR1"); raise(SIGUSR1); if (vx::chance(1, 2)) raise(SIGPIPE); break;
    case 7: if (!t.level_ready && !t.due) { LOG("    fill %d", t.fd); fill(t, true); } break;
    }
  }
  if (!budget && s.registered) { if (s.level_ready) fill(s, false); }
  dispatching = false;
}

// the loop found nothing ready and blocks
static int on_idle(void)
{
  maybe_new_iteration();
  idles++;
  CHECK(!iteration_open, "blocked in the middle of an iteration");
  CHECK(registered > 0, "the loop blocks with nothing registered");
  CHECK(!aborted, "the loop blocks after it was aborted");
  for (auto &s : slots) CHECK(!s->registered || !s->level_ready, "the loop blocks although descriptor %d is ready", s->fd);
  LOG("  blocked");
  if (vx::chance(1, 3)) { long long t = some_time(); LOG("    clock becomes %lld", t); set_clock(t); }
  unsigned what = idles > 60 || budget == 0 ? 3 : vx::weighted({6, 2, 1, 1});
  switch (what)
  {
  case 0:
  {
    size_t n = 1 + vx::below(3);
    for (size_t i = 0; i < n; i++) { Slot &s = *slots[vx::below(slots.size())]; if (!s.level_ready) { LOG("    fill %d", s.fd); fill(s, true); } }
    for (auto &s : slots) if (s->registered && s->level_ready) return 1;
    for (auto &s : slots) if (s->registered) { fill(*s, true); return 1; }
    return 1;
  }
  case 1: raise(SIGUSR1); LOG("    SIGUSR1"); vx::count("interrupted while blocked"); return 0;
  case 2: { LOG("    interrupted"); return 0; }
  default: do_abort(1 + vx::below(2)); vx::count("terminated while blocked"); return 0;
  }
}

void vx_case()
{
  slots.clear();
  interesting = iteration_open = dispatching = false;
  budget = 150;
  other_signals = 0;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = count_signal;
  sigaction(SIGUSR1, &sa, nullptr);
  vx_idle_hook = on_idle;
  vx_time_frozen = 1;
  vx_frozen_ns = 1000000000LL * (long long) (1 + vx::bits(33)) + (long long) vx::below(1000000000);
  clock_values.assign(1, vx_frozen_ns);
  batch_clock_reading = -1;
  registered = 0;
  ZeroFd zero;
  int fds = 0;
  unsigned loops = 1 + vx::below(3);
  size_t n = vx::below(9);
  for (size_t i = 0; i < n; i++) { slots.emplace_back(new Slot); slots[i]->fd = eventfd(0, EFD_NONBLOCK); }
  for (unsigned l = 0; l < loops; l++)
  {
    aborted = false;
    reactor_construct();
    if (l == 0) zero.later(fds);
    private_fds("[eventpoll]");
    LOG("loop %u", l);
    for (auto &s : slots)
    {
      if (vx::chance(2, 3)) add(*s);
      if (vx::chance(1, 3) && !s->level_ready) fill(*s, true);
    }
    bool before = vx::chance(1, 10);
    if (before) do_abort(vx::below(3));
    idles = 0;
    size_t start_registered = registered, start_iterations = iterations;
    iteration_open = false;
    // before the first iteration, after the last and (if the harness iterates itself) between iterations
    batch_clock_reading = -1;
    clock_values.assign(1, vx_frozen_ns);
    if (vx::chance(1, 4)) read_clock();
    if (vx::chance(1, 2))
      while (!aborted && registered)
      {
        reactor_loop_once();
        maybe_new_iteration();
        if (vx::chance(1, 4)) { long long t = some_time(); LOG("    clock becomes %lld", t); set_clock(t); }
        if (vx::chance(1, 2)) { LOG("  between iterations"); read_clock(true); }
      }
    reactor_loop();
    end_iteration();
    if (vx::chance(1, 2)) { LOG("  after the loop"); read_clock(true); }
    CHECK(aborted || registered == 0, "the loop returned with %zu descriptors registered and without being aborted", registered);
    if (before || start_registered == 0) CHECK(iterations == start_iterations && idles == 0, "the loop iterated although it was %s before it started", before ? "aborted" : "empty");
    // once aborted it stays so
    size_t it = iterations;
    idles = 0;
    reactor_loop();
    CHECK(iterations == it && idles == 0, "the loop runs again after it ended");
    vx::count(aborted ? "ended by abort or signal" : "ended because nothing is registered");
    for (auto &s : slots) if (s->registered) remove(*s);
    reactor_destruct();
  }
  // the library's clock before and between iterations is the real time
  for (auto &s : slots) close(s->fd);
  if (interesting) vx::nontrivial();
  vx_time_frozen = 0;
}
