// C22: asynchronous calls run once on another thread and complete once on the loop; cancelled ones are gone.
#include "common.h"
#include <atomic>
#include <dirent.h>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C22", "asynchronous calls run once elsewhere, then complete once on the loop", 16000, 500000,
  "one case is a history of up to 25 operations on one to four asynchronous calls: call, call again (also from inside the completion), run the loop, cancel and destroy at a drawn stage of the work "
  "(just called, started, computing, blocked in a cancellation point, finished, completion pending, inside a completion); the memory of the call and of its work is released right after a cancel or destroy; "
  "thread and descriptor counts and AddressSanitizer watch what remains; non-trivial: a cancel or destroy hit a call whose completion had not been reported"
  , 20, 60, true, "a call is not made while the previous one of the same object is outstanding and not cancelled|work that does not end by itself contains a cancellation point"};

enum Stage { CALLED, STARTED, COMPUTING, BLOCKED, FINISHED };
struct Work                       // belongs to the caller, used by the work
{
  unsigned compute;               // iterations without a cancellation point
  unsigned block;                 // 0: does not block, otherwise until the gate opens, at a cancellation point of this kind
  std::atomic<int> gate{0};
  std::atomic<int> stage{CALLED};
  std::atomic<int> runs{0};
  pthread_t thread;
  size_t n;
  uint32_t *result;               // written by the work
  uint32_t tag;
  int pipe[2] = {-1, -1};
};
struct A
{
  async *a = nullptr;
  void *token = nullptr;
  Work *w = nullptr;              // of the outstanding or last call
  bool outstanding = false;
  uint64_t calls = 0, done = 0;
};
// what the callback is registered with; lives as long as the async object
struct Token { A *owner; std::atomic<Work *> work; };

static std::vector<std::unique_ptr<A>> as;
static std::thread::id loop_thread;
static bool in_loop, interesting;
static size_t budget;
static uint32_t tags;

static void work(Work *w)
{
  w->runs++;
  w->thread = pthread_self();
  w->stage = STARTED;
  uint32_t x = w->tag;
  w->stage = COMPUTING;
  for (unsigned i = 0; i < w->compute; i++) { x = x * 1664525 + 1013904223; w->result[i % w->n] = x; }
  if (w->block)
  {
    w->stage = BLOCKED;
    while (!w->gate)
    {
      char c;
      if (w->block == 1) { struct timespec t = {0, 50000}; nanosleep(&t, nullptr); }
      else if (w->block == 2) { ssize_t k = read(w->pipe[0], &c, 1); (void) k; }
      else pthread_testcancel();
    }
  }
  for (size_t i = 0; i < w->n; i++) w->result[i] = w->tag + (uint32_t) i;
  w->stage = FINISHED;
}
static void program(A *self, unsigned mean);
static void callback(reactor_event *e)
{
  Token *t = (Token *) e->state;
  if (e->type == ASYNC_CALL)
  {
    if (std::this_thread::get_id() == loop_thread) vx::fail("the work runs on the loop's thread");
    work(t->work);
    return;
  }
  CHECK(e->type == ASYNC_DONE, "unknown event %d", e->type);
  CHECK(std::this_thread::get_id() == loop_thread && in_loop, "the completion is reported outside of the loop");
  A &a = *t->owner;
  CHECK(a.outstanding, "a completion is reported for a call that is not outstanding (cancelled, or completed before)");
  Work *w = a.w;
  CHECK(w->runs == 1, "a completion is reported, the work ran %d times", w->runs.load());
  CHECK(w->stage == FINISHED, "a completion is reported before the work is done");
  for (size_t i = 0; i < w->n; i++) CHECK(w->result[i] == w->tag + (uint32_t) i, "what the work wrote is not visible at its completion");
  a.outstanding = false;
  a.done++;
  LOG("  done");
  vx::count("completed");
  program(&a, 1);
}
static void release(Work *&w)
{
  if (!w) return;
  if (w->pipe[0] >= 0) { close(w->pipe[0]); close(w->pipe[1]); }
  memset(w->result, 0xee, w->n * sizeof *w->result);
  delete[] w->result;
  delete w;
  w = nullptr;
}
static void construct(A &a)
{
  a.a = (async *) malloc(sizeof(async));
  Token *t = new Token{&a, {nullptr}};
  a.token = t;
  async_construct(a.a, callback, t);
}
static void call(A &a)
{
  release(a.w);
  a.w = new Work;
  static const unsigned loops[] = {0, 10, 1000, 20000, 200000};
  a.w->compute = loops[vx::weighted({6, 4, 4, 2, 1})];
  a.w->block = (unsigned) vx::weighted({4, 2, 2, 1});
  a.w->n = 1 + vx::below(100);
  a.w->result = new uint32_t[a.w->n];
  a.w->tag = tags += 1000;
  if (a.w->block == 2) CHECK(pipe(a.w->pipe) == 0, "pipe");
  ((Token *) a.token)->work = a.w;
  a.outstanding = true;
  a.calls++;
  LOG("%scall, compute %u block %u", in_loop ? "    " : "  ", a.w->compute, a.w->block);
  async_call(a.a);
}
static void open_gate(A &a)
{
  if (!a.w || a.w->gate) return;
  a.w->gate = 1;
  if (a.w->block == 2) { ssize_t k = write(a.w->pipe[1], "x", 1); (void) k; }
}
static void wait_stage(A &a, int stage)
{
  if (!a.outstanding) return;
  if (stage == BLOCKED && !a.w->block) stage = FINISHED;
  if (stage == FINISHED) open_gate(a);
  while (a.w->stage < stage) sched_yield();
}
static void classify(A &a)
{
  if (!a.outstanding) return;
  static const char *names[] = {"ended when called", "ended when started", "ended when computing", "ended when blocked", "ended when finished"};
  vx::count(names[a.w->stage.load()]);
  interesting = true;
}
static void cancel(A &a)
{
  LOG("%scancel", in_loop ? "    " : "  ");
  classify(a);
  async_cancel(a.a);
  if (a.outstanding) { CHECK(a.w->runs <= 1, "the work ran %d times", a.w->runs.load()); a.outstanding = false; release(a.w); }
}
static void destroy(A &a)
{
  LOG("%sdestroy", in_loop ? "    " : "  ");
  classify(a);
  async_destruct(a.a);
  memset((void *) a.a, 0xee, sizeof *a.a);
  free(a.a);
  a.a = nullptr;
  a.outstanding = false;
  release(a.w);
  delete (Token *) a.token;
}
static int idle(void)
{
  for (auto &a : as) if (a->outstanding) { open_gate(*a); sched_yield(); return 1; }
  return 0;
}
static void run(bool all)
{
  long i = vx_idle_count;
  in_loop = true;
  do reactor_loop_once(); while (all && vx_idle_count == i);
  in_loop = false;
}
static void program(A *self, unsigned mean)
{
  while (budget && vx::more(mean))
  {
    budget--;
    A &a = self && vx::chance(2, 3) ? *self : *as[vx::below(as.size())];
    if (!a.a) { construct(a); continue; }
    switch (vx::weighted({6, 4, 2, 2, 1}))
    {
    case 0: if (!a.outstanding) call(a); break;
    case 1: if (!in_loop) { wait_stage(a, (int) vx::below(5)); for (unsigned k = (unsigned) vx::below(200); k; k--) { volatile int j = 0; (void) j; } } break;
    case 2: if (vx::chance(1, 2)) wait_stage(a, (int) vx::below(5)); cancel(a); break;
    case 3: if (vx::chance(1, 2)) wait_stage(a, (int) vx::below(5)); destroy(a); break;
    case 4: open_gate(a); break;
    }
    if (!in_loop && vx::chance(1, 3)) { LOG("run"); run(vx::chance(1, 2)); }
  }
}
static int threads(void)
{
  int n = 0;
  DIR *d = opendir("/proc/self/task");
  while (d && readdir(d)) n++;
  closedir(d);
  return n - 2;
}

void vx_case()
{
  as.clear();
  in_loop = interesting = false;
  budget = 25;
  loop_thread = std::this_thread::get_id();
  ZeroFd zero;
  int fds0 = vx::open_fds(), threads0 = threads();
  vx_idle_hook = idle;
  reactor_construct();
  zero.later(fds0);
  size_t n = 1 + vx::below(4);
  for (size_t i = 0; i < n; i++) { as.emplace_back(new A); construct(*as[i]); }
  program(nullptr, 14);
  if (vx::chance(1, 2))
  {
    LOG("run all");
    run(true);
    for (auto &a : as) CHECK(!a->outstanding, "a call has not completed");
  }
  for (auto &a : as) if (a->a) destroy(*a);
  run(true);
  reactor_destruct();
  for (int i = 0; threads() > threads0; i++) { CHECK(i < 20000, "%d threads are left", threads() - threads0); usleep(100); }
  CHECK(vx::open_fds() == fds0, "%d descriptors leaked", vx::open_fds() - fds0);
  CHECK(vx::vx_live_blocks() == 0, "%ld blocks leaked", vx::vx_live_blocks());
  if (interesting) vx::nontrivial();
}
