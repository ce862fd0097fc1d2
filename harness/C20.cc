// C20: signals of any thread reach the event's callback on the loop, none is lost or invented.
#include "common.h"
#include "fds.h"
#include <atomic>
#include <sched.h>
#include <thread>

const vx::Spec vx_spec = {
  "C20", "event signals are never lost and never invented", 60000, 1500000,
  "one case is one to five phases over one to five events: generated programs of zero to four threads signal shared events, with generated pauses, while the loop runs and a generated program signals, "
  "closes, opens again, destroys events between iterations and inside the callbacks; a global order of begun signals and callbacks is the oracle; "
  "non-trivial: threads signalled while the loop ran and the number of callbacks was smaller than the number of signals, or an event was closed or destroyed with a signal outstanding"};

struct Ev
{
  event *e = nullptr;
  bool open = false;
  bool shared = false;              // signalled by threads in this phase: not closed meanwhile
  std::atomic<uint64_t> begun{0};   // signals begun since it was opened
  std::atomic<uint64_t> last{0};    // order of the most recent begun signal
  uint64_t called = 0;              // callbacks since it was opened
  uint64_t last_call = 0;           // order of the last callback
  void *token = nullptr;
};

static std::vector<std::unique_ptr<Ev>> evs;
static std::map<void *, Ev *> by_token;
static std::vector<void *> tokens;
static std::atomic<uint64_t> order;
static std::atomic<int> running;
static std::thread::id loop_thread;
static bool in_loop, interesting;
static size_t budget;

static void callback(reactor_event *);
static int index_of(Ev &v) { for (size_t i = 0; i < evs.size(); i++) if (evs[i].get() == &v) return (int) i; return -1; }
static const char *I() { return in_loop ? "    " : "  "; }

static void construct(Ev &v)
{
  v.e = (event *) malloc(sizeof(event));
  v.token = malloc(1);
  tokens.push_back(v.token);
  by_token[v.token] = &v;
  event_construct(v.e, callback, v.token);
  CHECK(!event_is_open(v.e), "a constructed event is open");
  v.open = false;
}
static void open_it(Ev &v)
{
  LOG("%sopen %d", I(), index_of(v));
  event_open(v.e);
  CHECK(event_is_open(v.e), "an opened event is not open");
  v.open = true;
  v.begun = v.last = v.called = v.last_call = 0;
}
static bool outstanding(Ev &v) { return v.last && v.last_call < v.last; }
static void signal_it(Ev &v)
{
  v.begun++;
  v.last = ++order;
  event_signal(v.e);
}
static void close_it(Ev &v)
{
  if (v.open && outstanding(v)) { interesting = true; vx::count("closed with a signal outstanding"); }
  event_close(v.e);
  CHECK(!event_is_open(v.e), "a closed event is open");
  v.open = false;
}
static void destroy(Ev &v)
{
  if (v.open && outstanding(v)) { interesting = true; vx::count("destroyed with a signal outstanding"); }
  event_destruct(v.e);
  memset((void *) v.e, 0xee, sizeof *v.e);
  free(v.e);
  v.e = nullptr;
  v.open = false;
  by_token.erase(v.token);
}
static void program(Ev *self, unsigned mean)
{
  while (budget && vx::more(mean))
  {
    budget--;
    size_t i = vx::below(evs.size());
    Ev &v = self && vx::chance(1, 2) ? *self : *evs[i];
    if (!v.e) { construct(v); continue; }
    if (!v.open) { if (vx::chance(3, 4)) open_it(v); else if (vx::chance(1, 2)) close_it(v); else destroy(v); continue; }
    switch (vx::weighted({6, 1, 1, 1}))
    {
    case 0: { unsigned n = 1 + (unsigned) vx::below(3); LOG("%ssignal %d x%u", I(), index_of(v), n); while (n--) signal_it(v); break; }
    case 1: if (!v.shared) { LOG("%sclose %d", I(), index_of(v)); close_it(v); } break;
    case 2: if (!v.shared) { LOG("%sdestroy %d", I(), index_of(v)); destroy(v); } break;
    case 3: if (!v.shared) { LOG("%sclose and open %d", I(), index_of(v)); close_it(v); open_it(v); } break;
    }
  }
}
static void callback(reactor_event *e)
{
  uint64_t now = ++order;
  CHECK(std::this_thread::get_id() == loop_thread, "the callback runs on another thread");
  CHECK(in_loop, "the callback runs outside of the loop");
  auto it = by_token.find(e->state);
  CHECK(it != by_token.end(), "the callback of a destroyed event is called");
  Ev &v = *it->second;
  CHECK(e->type == EVENT_SIGNAL, "unknown event type %d", e->type);
  CHECK(v.open, "the callback of a closed event is called");
  v.called++;
  v.last_call = now;
  CHECK(v.called <= v.begun, "the callback ran %lu times after %lu signals", v.called, v.begun.load());
  LOG("    callback");
  program(&v, 1);
}

static int quiet;
static int idle(void)
{
  if (running > 0) { sched_yield(); quiet = 0; return 1; }
  // all signals have returned before this: one more look
  return quiet++ ? 0 : 1;
}

struct Plan { std::vector<std::pair<size_t, unsigned>> steps; };

void vx_case()
{
  evs.clear(); by_token.clear(); tokens.clear();
  order = 0;
  running = 0;
  in_loop = interesting = false;
  budget = 120;
  loop_thread = std::this_thread::get_id();
  ZeroFd zero;
  int fds0 = vx::open_fds();
  vx_idle_hook = idle;
  reactor_construct();
  zero.later(fds0);
  size_t n = 1 + vx::below(5);
  for (size_t i = 0; i < n; i++) { evs.emplace_back(new Ev); construct(*evs[i]); if (vx::chance(4, 5)) open_it(*evs[i]); }
  private_fds("[eventfd]");
  size_t phases = 1 + vx::below(5);
  for (size_t ph = 0; ph < phases; ph++)
  {
    LOG("phase %zu", ph);
    for (auto &v : evs) v->shared = false;
    std::vector<Plan> plans(vx::weighted({3, 2, 2, 1, 1}));
    bool threads = false;
    uint64_t begun0 = 0, called0 = 0;
    for (auto &p : plans)
      while (p.steps.size() < 40 && vx::more(6))
      {
        size_t i = vx::below(evs.size());
        if (!evs[i]->open) continue;
        evs[i]->shared = true;
        p.steps.push_back({i, (unsigned) vx::weighted({6, 2, 1, 1})});
        threads = true;
      }
    program(nullptr, 2);
    for (auto &v : evs) if (v->shared) { begun0 += v->begun; called0 += v->called; }
    running = (int) plans.size();
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    int k = (int) plans.size();
    for (auto &p : plans)
      ts.emplace_back([&, k] {
        ready++;
        while (ready < k) sched_yield();
        for (auto [i, pause] : p.steps)
        {
          if (pause == 1) sched_yield();
          if (pause == 2) for (volatile int j = 0; j < 2000; j = j + 1) ;
          if (pause == 3) { struct timespec t = {0, 20000}; nanosleep(&t, nullptr); }
          signal_it(*evs[i]);
        }
        running--;
      });
    if (vx::chance(1, 3)) for (auto &t : ts) t.join(); // all signals before the loop looks
    // the phase ends when the threads are done and nothing is ready
    long idles = vx_idle_count;
    quiet = 0;
    while (vx_idle_count == idles)
    {
      if (running <= 0) program(nullptr, 1);
      in_loop = true;
      reactor_loop_once();
      in_loop = false;
    }
    for (auto &t : ts) if (t.joinable()) t.join();
    uint64_t begun1 = 0, called1 = 0;
    for (auto &v : evs)
    {
      if (!v->e || !v->open) continue;
      if (v->shared) { begun1 += v->begun; called1 += v->called; }
      CHECK(!outstanding(*v), "a signal (number %lu since the event was opened) was not followed by a callback (%lu callbacks)", v->begun.load(), v->called);
    }
    if (threads) vx::count("phase with threads");
    if (threads && called1 - called0 < begun1 - begun0) { interesting = true; vx::count("signals coalesced"); }
    // nothing is signalled: nothing is reported
    if (vx::chance(1, 2))
    {
      std::vector<uint64_t> before;
      for (auto &v : evs) before.push_back(v->open ? v->called : 0);
      size_t b = budget; budget = 0;
      idles = vx_idle_count; quiet = 0;
      in_loop = true;
      while (vx_idle_count == idles) reactor_loop_once();
      in_loop = false;
      budget = b;
      // left-over counts of coalesced signals may show up, bounded by the check in the callback
    }
  }
  for (auto &v : evs) if (v->e) destroy(*v);
  reactor_destruct();
  for (auto t : tokens) free(t);
  CHECK(vx::open_fds() == fds0, "%d descriptors leaked", vx::open_fds() - fds0);
  CHECK(vx::vx_live_blocks() == 0, "%ld blocks leaked", vx::vx_live_blocks());
  if (interesting) vx::nontrivial();
}
