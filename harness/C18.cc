// C18: descriptors report the subscribed events of the real file, and close exactly once.
#include "common.h"
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C18", "descriptors deliver exactly the subscribed events", 250000, 8000000,
  "one case runs up to 40 iterations over one to eight descriptors (socket pairs and pipes, level or edge mode) while a generated program, between iterations and inside callbacks, opens, closes, "
  "destroys, re-masks them, and writes, reads, half-closes and closes the peers; poll(2) is the oracle for the state of each file; closed numbers are re-used at once by the harness; "
  "non-trivial: a descriptor was closed, destroyed or reopened inside a callback while events of it or another closed one were pending"};

enum { R = 1, W = 2, C = 4 };

struct D
{
  descriptor *d = nullptr;
  int peer = -1;
  int fd = -1;             // our expectation of the open descriptor, -1 when closed
  int kind = 0;            // 0 socket pair, 1 pipe read end, 2 pipe write end
  int mask = 0;
  unsigned due = 0;        // events that must be delivered in this iteration
  unsigned may = 0;        // events that may be delivered in this iteration
  unsigned got = 0;
  bool disturbed = true;   // something happened to the file, its peer or the mask since the last delivery (edge mode)
  unsigned must_edge = 0;  // edges that are due for certain (edge mode)
  uint64_t opened = 0;     // iteration in which it was opened
  void *token = nullptr;   // state registered for the handler
};

static std::vector<std::unique_ptr<D>> ds;
static std::vector<int> fillers;   // descriptors of the harness that re-use closed numbers
static std::vector<void *> tokens;
static std::map<void *, D *> by_token;
static uint64_t iteration;
static bool in_loop, interesting;
static size_t budget;

static void callback(reactor_event *);

static unsigned state(int fd)
{
  struct pollfd p = {fd, POLLIN | POLLOUT | POLLRDHUP, 0};
  CHECK(poll(&p, 1, 0) >= 0 && !(p.revents & POLLNVAL), "descriptor %d is not open", fd);
  unsigned r = 0;
  if (p.revents & POLLIN) r |= R;
  if (p.revents & POLLOUT) r |= W;
  if (p.revents & (POLLHUP | POLLRDHUP | POLLERR)) r |= C;
  return r;
}
static unsigned subscribed(const D &d) { return (d.mask & DESCRIPTOR_READ ? R : 0u) | (d.mask & DESCRIPTOR_WRITE ? W : 0u) | C; }

static void disturb(D &d, unsigned edges = 0) { d.disturbed = true; d.must_edge |= edges; }

static void construct(D &d)
{
  d.d = (descriptor *) malloc(sizeof(descriptor));
  d.token = malloc(1);
  tokens.push_back(d.token);
  by_token[d.token] = &d;
  descriptor_construct(d.d, callback, d.token);
  CHECK(!descriptor_is_open(d.d) && descriptor_fd(d.d) < 0, "a constructed descriptor is open");
}
static const char *I() { return in_loop ? "    " : ""; }
static int some_mask()
{
  static const int m[] = {DESCRIPTOR_READ, DESCRIPTOR_READ | DESCRIPTOR_WRITE, DESCRIPTOR_WRITE, 0};
  return m[vx::weighted({6, 3, 3, 1})] | (vx::chance(1, 2) ? DESCRIPTOR_LEVEL : 0);
}
static void open_it(D &d)
{
  int p[2];
  d.kind = (int) vx::weighted({4, 1, 1});
  if (d.kind == 0) { CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "socketpair"); d.fd = p[0]; d.peer = p[1]; }
  else { CHECK(pipe2(p, O_NONBLOCK) == 0, "pipe"); d.fd = d.kind == 1 ? p[0] : p[1]; d.peer = d.kind == 1 ? p[1] : p[0]; }
  if (d.kind == 0 && vx::chance(1, 2)) { int n = 2000; setsockopt(d.fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); }
  if (vx::chance(1, 40))
  { // a large number
    struct rlimit l;
    int at = (int) vx::pick(std::vector<unsigned>{127, 255, 511, 1023, 1024, 4095, 8191, 16383, 32767, 65535}) + (int) vx::below(3), h = -1;
    if (getrlimit(RLIMIT_NOFILE, &l) == 0 && (rlim_t) at + 20 < l.rlim_cur) h = fcntl(d.fd, F_DUPFD, at);
    if (h >= 0) { close(d.fd); d.fd = h; vx::count("large descriptor number"); }
  }
  d.mask = some_mask();
  LOG("%sopen %d mask %d kind %d", I(), d.fd, d.mask, d.kind);
  descriptor_open(d.d, d.fd, (enum descriptor_mask) d.mask);
  CHECK(descriptor_is_open(d.d) && descriptor_fd(d.d) == d.fd, "an open descriptor has number %d, expected %d", descriptor_fd(d.d), d.fd);
  d.opened = in_loop ? iteration : iteration - 1;
  d.due = d.may = d.got = 0;
  d.must_edge = R | W | C;
  d.disturbed = true;
}
static void closed(D &d, int fd)
{
  CHECK(fcntl(fd, F_GETFD) == -1, "descriptor %d is still open after it was closed", fd);
  int f = dup(fillers[0]); // takes the lowest free number, usually this one
  fillers.push_back(f);
  if (in_loop && d.due & ~d.got) { interesting = true; vx::count("closed while events are pending"); }
  d.fd = -1;
  d.due = d.may = 0;
  if (d.peer >= 0) close(d.peer);
  d.peer = -1;
}
static void close_it(D &d)
{
  int fd = d.fd;
  LOG("%sclose %d", I(), fd);
  descriptor_close(d.d);
  CHECK(!descriptor_is_open(d.d) && descriptor_fd(d.d) < 0, "a closed descriptor is open");
  if (fd >= 0) closed(d, fd);
}
static void destroy(D &d)
{
  int fd = d.fd;
  LOG("%sdestroy %d", I(), fd);
  descriptor_destruct(d.d);
  if (fd >= 0) closed(d, fd);
  memset((void *) d.d, 0xee, sizeof *d.d);
  free(d.d);
  d.d = nullptr;
  by_token.erase(d.token);
}

static void program(D *self, unsigned mean)
{
  while (budget && vx::more(mean))
  {
    budget--;
    D &d = self && vx::chance(1, 2) ? *self : *ds[vx::below(ds.size())];
    if (!d.d) { construct(d); continue; }
    if (d.fd < 0)
    {
      switch (vx::weighted({5, 1, 1}))
      {
      case 0: open_it(d); break;
      case 1: close_it(d); break; // closing a closed one is harmless
      case 2: destroy(d); break;
      }
      continue;
    }
    char buf[3000];
    switch (vx::weighted({5, 4, 3, 3, 2, 2, 3, 1, 1, 3}))
    {
    case 0:
      if (d.peer >= 0 && d.kind != 2)
      {
        size_t n = 1 + vx::size(2000);
        memset(buf, 'x', n);
        ssize_t k = send(d.peer, buf, n, MSG_NOSIGNAL);
        if (k < 0) k = write(d.peer, buf, n);
        LOG("%speer of %d writes %zd", I(), d.fd, k);
        if (k > 0) disturb(d, R);
      }
      break;
    case 1: if (d.kind != 2) { ssize_t k = read(d.fd, buf, 1 + vx::size(2900)); LOG("%sread %zd from %d", I(), k, d.fd); disturb(d); } break;
    case 2:
      if (d.kind != 1)
      {
        ssize_t k = 0;
        if (vx::chance(1, 2)) { memset(buf, 'y', sizeof buf); while ((k = write(d.fd, buf, sizeof buf)) > 0) ; LOG("%sfill the output of %d", I(), d.fd); }
        else { k = write(d.fd, buf, 1); LOG("%swrite %zd to %d", I(), k, d.fd); }
        disturb(d);
      }
      break;
    case 3: if (d.peer >= 0 && d.kind != 1) 
      {
        bool full = !(state(d.fd) & W);
        ssize_t k, t = 0;
        while ((k = read(d.peer, buf, sizeof buf)) > 0) t += k;
        LOG("%speer of %d reads %zd", I(), d.fd, t);
        disturb(d, full && t && state(d.fd) & W ? W : 0u);
      }
      break;
    case 4: if (d.peer >= 0) { LOG("%speer of %d closes", I(), d.fd); close(d.peer); d.peer = -1; disturb(d, C); } break;
    case 5: if (d.peer >= 0 && d.kind == 0) { LOG("%speer of %d shuts down", I(), d.fd); shutdown(d.peer, SHUT_WR); disturb(d, C); } break;
    case 6:
    {
      int m = some_mask();
      LOG("%smask %d = %d", I(), d.fd, m);
      descriptor_mask(d.d, (enum descriptor_mask) m);
      disturb(d, m != d.mask ? R | W | C : 0u);
      d.mask = m;
      break;
    }
    case 7: close_it(d); break;
    case 8: destroy(d); break;
    case 9: if (vx::chance(1, 2)) { close_it(d); open_it(d); vx::count("reopened"); } break;
    }
  }
}

static void callback(reactor_event *e)
{
  CHECK(in_loop, "a descriptor reports outside of an iteration");
  auto it = by_token.find(e->state);
  CHECK(it != by_token.end(), "a destroyed descriptor reports event %d", e->type);
  D &d = *it->second;
  CHECK(d.fd >= 0, "a closed descriptor reports event %d", e->type);
  CHECK(e->type == DESCRIPTOR_READ || e->type == DESCRIPTOR_WRITE || e->type == DESCRIPTOR_CLOSE, "unknown event %d", e->type);
  unsigned b = e->type == DESCRIPTOR_READ ? R : e->type == DESCRIPTOR_WRITE ? W : C;
  const char *names[] = {"", "read", "write", "", "close"};
  LOG("  %s %d", names[b], d.fd);
  vx::count(names[b]);
  CHECK(d.may & b, "descriptor %d reports %s, which is not subscribed, not the case, not new, or from before it was opened", d.fd, names[b]);
  CHECK(!(d.got & b), "descriptor %d reports %s twice in one iteration", d.fd, names[b]);
  d.got |= b;
  uint64_t opened = d.opened;
  if (vx::chance(1, 4) && d.kind != 2 && b == R) { char buf[4096]; while (read(d.fd, buf, sizeof buf) > 0) ; LOG("    drain %d", d.fd); d.disturbed = true; }
  program(&d, 1);
  (void) opened;
}

static bool idle;
static int on_idle(void) { idle = true; return 0; }

void vx_case()
{
  ds.clear();
  by_token.clear();
  tokens.clear();
  ZeroFd zero;
  fillers.assign(1, open("/dev/null", O_RDONLY));
  iteration = 1;
  in_loop = interesting = false;
  budget = 300;
  int fds0 = vx::open_fds();
  vx_idle_hook = on_idle;
  reactor_construct();
  zero.later(fds0);
  size_t n = 1 + vx::below(8);
  for (size_t i = 0; i < n; i++) { ds.emplace_back(new D); construct(*ds[i]); if (vx::chance(3, 4)) open_it(*ds[i]); }
  size_t rounds = 1 + vx::below(40);
  for (size_t k = 0; k < rounds; k++)
  {
    program(nullptr, 3);
    bool any = false;
    for (auto &d : ds)
    {
      d->due = d->may = d->got = 0;
      if (!d->d || d->fd < 0) continue;
      unsigned st = state(d->fd) & subscribed(*d);
      if (d->mask & DESCRIPTOR_LEVEL) d->due = d->may = st;
      else
      {
        d->may = d->disturbed ? st : 0;
        d->due = st & d->must_edge;
        if (d->due) d->due = st; // one report carries everything that is the case
      }
      any |= d->due != 0;
      if (d->due || d->may) d->disturbed = false;
      d->must_edge = 0;
    }
    idle = false;
    iteration++;
    in_loop = true;
    LOG("iteration");
    reactor_loop_once();
    in_loop = false;
    CHECK(!idle || !any, "the loop blocks although events are due");
    for (auto &d : ds)
      if (d->d && d->fd >= 0 && d->opened < iteration)
        CHECK((d->due & ~d->got) == 0, "descriptor %d (mask %d) did not report events %u (1 read, 2 write, 4 close), reported %u", d->fd, d->mask, d->due & ~d->got, d->got);
  }
  for (auto &d : ds) { if (d->d) destroy(*d); if (d->peer >= 0) close(d->peer); }
  reactor_destruct();
  for (auto t : tokens) free(t);
  CHECK(vx::open_fds() == fds0 + (int) fillers.size() - 1, "%d descriptors are open at the end, expected %d: one was closed twice or leaked", vx::open_fds(), fds0 + (int) fillers.size() - 1);
  for (int f : fillers) { CHECK(fcntl(f, F_GETFD) != -1, "a descriptor of the harness was closed by the library"); close(f); }
  if (interesting) vx::nontrivial();
}
