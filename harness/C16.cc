// C16: the event loop calls exactly the live, ready handlers.
#include "common.h"
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C16", "the loop calls only live handlers, and every ready one", 250000, 6000000,
  "one case registers 1 to 300 descriptors (eventfds, level or edge triggered, for input and output) and runs up to 40 iterations; between iterations and inside every callback a generated program adds, "
  "modifies, removes, re-registers (same or new handler, same or recycled descriptor number) and changes readiness of any of them; non-trivial: a handler that was ready in the running iteration was "
  "removed or replaced by another one's callback before its turn"};

static const size_t BATCH = 16; // up to this many ready descriptors must all be served in one iteration

struct Slot;
struct Registration // what a handler's state points to
{
  Slot *slot;
  reactor_handler *handler;
  uint64_t born;      // iteration in which it was registered
  uint64_t called = UINT64_MAX;
  uint64_t magic = 0x5e57;
};
struct Slot
{
  int fd = -1;
  Registration *reg = nullptr; // live registration
  uint32_t events = 0;
  bool readable = false;
  // edges since the last delivery (edge triggered only); later: arrived in the running iteration, while a delivery is pending
  bool in = false, out = false, later_in = false, later_out = false;
  uint64_t waiting = 0;        // iterations for which it was due without being served
  bool due = false;            // ready when the running iteration started
  uint32_t expect = 0;         // the events it was ready for then, if it was not modified since
};

static std::vector<std::unique_ptr<Slot>> slots;
static std::vector<reactor_handler *> spare; // handlers that were removed and may be used again
static uint64_t iteration;
static bool in_loop, interesting;
static size_t due_count, served, budget;

static void callback(reactor_event *e);

static bool ready(const Slot &s)
{
  if (!s.reg) return false;
  bool level = !(s.events & EPOLLET);
  return (s.events & EPOLLIN && s.readable && (level || s.in)) || (s.events & EPOLLOUT && (level || s.out));
}
static void edge(Slot &s, bool in, bool out)
{
  if (in) (in_loop && s.due ? s.later_in : s.in) = true;
  if (out) (in_loop && s.due ? s.later_out : s.out) = true;
}
static void refill(Slot &s, bool on)
{
  uint64_t v = 1;
  if (on)
  {
    CHECK(write(s.fd, &v, sizeof v) == sizeof v, "eventfd write");
    s.readable = true;
    edge(s, true, false);
  }
  else if (s.readable)
  {
    CHECK(read(s.fd, &v, sizeof v) == sizeof v, "eventfd read");
    s.readable = false;
    edge(s, false, true); // the counter going down is an edge for output
  }
}
static uint32_t mask()
{
  static const uint32_t m[] = {EPOLLIN, EPOLLIN | EPOLLET, EPOLLOUT, EPOLLIN | EPOLLOUT, EPOLLOUT | EPOLLET, EPOLLIN | EPOLLOUT | EPOLLET, 0};
  return m[vx::weighted({10, 6, 2, 1, 2, 1, 1})];
}
static void add(Slot &s, reactor_handler *reuse)
{
  Registration *r = new Registration;
  r->slot = &s;
  r->born = in_loop ? iteration : iteration - 1;
  r->handler = reuse ? reuse : (reactor_handler *) malloc(sizeof(reactor_handler));
  reactor_handler_construct(r->handler, callback, r);
  s.reg = r;
  s.events = mask();
  s.waiting = 0;
  s.due = false;
  s.in = s.out = true;
  s.later_in = s.later_out = false;
  LOG("%s  add %d events %x%s", in_loop ? "  " : "", s.fd, s.events, reuse ? " with a handler used before" : "");
  reactor_add(r->handler, s.fd, s.events);
}
static reactor_handler *remove(Slot &s, bool keep)
{
  Registration *r = s.reg;
  reactor_handler *h = r->handler;
  LOG("%s  remove %d%s", in_loop ? "  " : "", s.fd, s.due ? " (ready)" : "");
  reactor_delete(h, s.fd);
  if (in_loop && s.due && r->called != iteration) { interesting = true; vx::count("removed while pending"); }
  s.reg = nullptr;
  s.due = false;
  r->magic = 0; // leaked until the end of the case, so that a late call is recognised
  if (keep) return h;
  reactor_handler_destruct(h);
  free(h);
  return nullptr;
}
static std::vector<Registration *> graveyard;

static void program(Slot *self, unsigned mean)
{
  while (budget && vx::more(mean))
  {
    budget--;
    Slot &s = self && vx::chance(1, 3) ? *self : *slots[vx::below(slots.size())];
    switch (vx::weighted({4, 5, 3, 4, 3, 2, 2, 1}))
    {
    case 0: if (s.reg) { graveyard.push_back(s.reg); remove(s, false); } break;
    case 1: if (!s.reg) add(s, nullptr); break;
    case 2:
      if (s.reg)
      {
        s.events = mask();
        s.expect = 0;
        LOG("%s  modify %d events %x", in_loop ? "  " : "", s.fd, s.events);
        reactor_modify(s.reg->handler, s.fd, s.events);
        edge(s, true, true);
        vx::count("modify");
      }
      break;
    case 3: LOG("%s  fill %d", in_loop ? "  " : "", s.fd); if (!s.readable || vx::chance(1, 3)) refill(s, true); break;
    case 4: LOG("%s  drain %d", in_loop ? "  " : "", s.fd); refill(s, false); break;
    case 5: // replaced at once, by the same handler object or a new one
      if (s.reg)
      {
        bool keep = vx::chance(1, 2);
        graveyard.push_back(s.reg);
        reactor_handler *h = remove(s, keep);
        add(s, h);
        vx::count("re-registered");
      }
      break;
    case 6: // the descriptor number is recycled
      if (s.reg)
      {
        bool keep = vx::chance(1, 2);
        graveyard.push_back(s.reg);
        reactor_handler *h = remove(s, keep);
        close(s.fd);
        s.fd = eventfd(0, EFD_NONBLOCK);
        s.readable = false;
        // the old handler object may now serve another descriptor
        Slot &t = *slots[vx::below(slots.size())];
        if (t.reg) { if (h) { add(s, h); h = nullptr; } }
        else { add(t, h); h = nullptr; }
        if (h) { reactor_handler_destruct(h); free(h); }
        vx::count("recycled");
      }
      break;
    case 7: // direct dispatch reaches the handler with exactly these values
      if (s.reg)
      {
        int type = (int) vx::below(1000) + 10;
        static int got_type; static uintptr_t got_data; static void *got_state;
        reactor_handler h;
        reactor_handler_construct(&h, [](reactor_event *e) { got_type = e->type; got_data = e->data; got_state = e->state; }, &s);
        uintptr_t d = vx::bits(64);
        reactor_dispatch(&h, type, d);
        CHECK(got_type == type && got_data == d && got_state == &s, "reactor_dispatch delivered other values");
        got_state = nullptr;
        reactor_handler_destruct(&h);
        reactor_dispatch(&h, type, d); // harmless
        CHECK(got_state == nullptr, "a destructed handler was called");
        reactor_handler_construct(&h, nullptr, nullptr);
        reactor_dispatch(&h, type, d);
      }
      break;
    }
  }
}

static void callback(reactor_event *e)
{
  Registration *r = (Registration *) e->state;
  CHECK(in_loop, "a handler is called outside of an iteration");
  CHECK(r->magic == 0x5e57 && r->slot->reg == r, "a removed registration is called");
  Slot &s = *r->slot;
  CHECK(e->type == REACTOR_EPOLL_EVENT, "event type %d", e->type);
  CHECK(r->born < iteration, "a handler registered in this iteration for descriptor %d is called in it (an old event)", s.fd);
  CHECK(r->called != iteration, "the handler of descriptor %d is called twice in one iteration", s.fd);
  CHECK(s.due, "the handler of descriptor %d is called although it was not ready", s.fd);
  uint32_t events = ((epoll_event *) e->data)->events;
  CHECK(!s.expect || events == s.expect, "the handler of descriptor %d is given events %x, but it is ready for %x", s.fd, events, s.expect);
  r->called = iteration;
  s.waiting = 0;
  s.due = false;
  served++;
  LOG("  call %d", s.fd);
  s.in = s.later_in;
  s.out = s.later_out;
  s.later_in = s.later_out = false;
  if (vx::chance(1, 3)) refill(s, false);
  program(&s, 1);
}

static bool idle;
static int on_idle(void) { idle = true; return 0; }

void vx_case()
{
  slots.clear();
  graveyard.clear();
  iteration = 1;
  interesting = false;
  in_loop = false;
  budget = 600;
  ZeroFd zero;
  int fds0 = vx::open_fds();
  vx_idle_hook = on_idle;
  reactor_construct();
  zero.later(fds0);
  size_t n = vx::chance(1, 12) ? 33 + vx::below(268) : vx::chance(1, 3) ? 1 + vx::below(40) : 1 + vx::below(8);
  for (size_t i = 0; i < n; i++)
  {
    slots.emplace_back(new Slot);
    slots[i]->fd = eventfd(0, EFD_NONBLOCK);
    CHECK(slots[i]->fd >= 0, "eventfd");
    if (vx::chance(7, 8)) add(*slots[i], nullptr);
    if (vx::chance(1, 2)) refill(*slots[i], true);
  }
  LOG("%zu descriptors", n);
  size_t rounds = 1 + vx::below(n > 40 ? 12 : 40);
  for (size_t k = 0; k < rounds; k++)
  {
    program(nullptr, 3);
    // what is ready now?
    due_count = 0;
    for (auto &s : slots)
    {
      s->due = ready(*s);
      s->expect = s->due ? (s->events & EPOLLIN && s->readable ? (uint32_t) EPOLLIN : 0) | (s->events & EPOLLOUT) : 0;
      due_count += s->due;
    }
    served = 0;
    idle = false;
    iteration++;
    in_loop = true;
    LOG("iteration, %zu ready", due_count);
    reactor_loop_once();
    in_loop = false;
    CHECK(!idle || due_count == 0 || served, "the loop blocked although %zu descriptors were ready", due_count);
    for (auto &s : slots)
      if (s->due && s->reg)
      {
        s->in |= s->later_in;
        s->out |= s->later_out;
        s->later_in = s->later_out = false;
        CHECK(due_count > BATCH, "descriptor %d was ready (one of %zu) and was not served in this iteration", s->fd, due_count);
        s->waiting++;
        CHECK(s->waiting <= slots.size() / BATCH + 3, "descriptor %d was ready for %zu iterations without being served (%zu descriptors)", s->fd, (size_t) s->waiting, slots.size());
      }
      else s->waiting = 0;
    vx::count(due_count == 0 ? "idle iteration" : due_count <= 2 ? "1-2 ready" : due_count <= BATCH ? "3-16 ready" : "more than 16 ready");
  }
  for (auto &s : slots)
  {
    if (s->reg) { graveyard.push_back(s->reg); remove(*s, false); }
    close(s->fd);
  }
  reactor_destruct();
  for (auto r : graveyard) delete r;
  CHECK(vx::open_fds() == fds0, "descriptors leaked");
  if (interesting) vx::nontrivial();
}
