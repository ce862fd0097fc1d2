// C21: file watches report what the kernel reports for the same watches, under the right path.
#include "common.h"
#include "fds.h"
#include <fcntl.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C21", "file watches report every change, in order, under the right path", 1600, 60000,
  "one case is up to twelve rounds of generated file system operations (create, write, chmod, rename, delete, mkdir, rmdir, with names of 1 to 255 bytes) and of watch, clear, destroy and construct operations on one or two "
  "watchers, made between iterations and inside the callbacks, in a private directory; the oracle is a second inotify instance with the same watches, read by the harness; one case in 80 overflows the kernel's queue; "
  "non-trivial: events of at least two watches were reported, and there was a clear or destroy with events pending, a watch was made inside a callback, or one round's events needed more than one read of 4096 bytes"};

typedef struct { size_t watch; uint32_t mask; std::string name; } Change;
static bool same(const Change &a, const Change &b) { return a.watch == b.watch && a.mask == b.mask && a.name == b.name; }

struct Watch { int id; int raw; std::string path; };
struct N
{
  notify *n = nullptr;
  void *token = nullptr;
  int raw;                         // the harness's own instance
  std::vector<Watch> watches;      // since it was cleared
  std::set<std::pair<dev_t, ino_t>> inodes;
  std::vector<Change> got, want;
  bool loose = false;              // changes were made while the library was reading: identical neighbours may be merged by the kernel
};

static std::vector<std::unique_ptr<N>> ns;
static int raws[2] = {-1, -1};
static std::map<void *, N *> by_token;
static std::vector<void *> tokens;
static std::string root;
static bool in_loop, interesting, quiet; // quiet: callbacks do nothing
static size_t budget, reported_watches;
static std::set<std::pair<N *, size_t>> reported;

static void callback(reactor_event *);
static const char *I() { return in_loop ? "    " : "  "; }

static std::string show(const N &n, const Change &c)
{
  char b[64];
  snprintf(b, sizeof b, " mask %x ", c.mask);
  return (c.watch < n.watches.size() ? n.watches[c.watch].path : std::string("?")) + b + vx::quote(c.name, 20);
}
static void read_raw(N &n)
{
  alignas(inotify_event) char b[65536];
  ssize_t k, bytes = 0;
  while (n.raw >= 0 && (k = read(n.raw, b, sizeof b)) > 0)
  {
    bytes += k;
    for (char *p = b; p < b + k;)
    {
      auto *e = (inotify_event *) p;
      p += sizeof *e + e->len;
      if (e->wd == -1) { vx::count("queue overflow"); continue; }
      size_t w = 0;
      while (w < n.watches.size() && n.watches[w].raw != e->wd) w++;
      CHECK(w < n.watches.size(), "the harness's instance reports an unknown watch");
      n.want.push_back({w, e->mask, e->len ? e->name : ""});
    }
  }
  if (bytes > 4096) { interesting = true; vx::count("more than one read"); }
}
static std::vector<Change> merged(const std::vector<Change> &v)
{
  std::vector<Change> r;
  for (auto &c : v) if (r.empty() || !same(r.back(), c)) r.push_back(c);
  return r;
}
// what was reported is a prefix of (final: is) what the kernel reported
static void compare(N &n, bool final)
{
  read_raw(n);
  std::vector<Change> g = n.loose ? merged(n.got) : n.got, w = n.loose ? merged(n.want) : n.want;
  for (size_t i = 0; i < g.size() || (final && i < w.size()); i++)
  {
    CHECK(i < w.size(), "change %zu is reported but did not happen: %s", i, show(n, g[i]).c_str());
    CHECK(i < g.size(), "change %zu of %zu is not reported: %s", i, w.size(), show(n, w[i]).c_str());
    CHECK(same(g[i], w[i]), "change %zu is reported as %s, but it was %s", i, show(n, g[i]).c_str(), show(n, w[i]).c_str());
  }
  if (final) { n.got.clear(); n.want.clear(); n.loose = false; }
}
static void forget(N &n)
{
  compare(n, false);
  if (n.want.size() > n.got.size()) { interesting = true; vx::count("cleared with events pending"); }
  // the harness keeps its instance (closing one is slow) and drops its watches
  for (auto &w : n.watches) inotify_rm_watch(n.raw, w.raw);
  char b[65536];
  while (n.raw >= 0 && read(n.raw, b, sizeof b) > 0) ;
  n.watches.clear();
  n.inodes.clear();
  n.got.clear();
  n.want.clear();
  n.loose = false;
}
static void construct(N &n)
{
  n.n = (notify *) malloc(sizeof(notify));
  n.token = malloc(1);
  tokens.push_back(n.token);
  by_token[n.token] = &n;
  notify_construct(n.n, callback, n.token);
}
static void destroy(N &n)
{
  LOG("%sdestroy", I());
  forget(n);
  notify_destruct(n.n);
  memset((void *) n.n, 0xee, sizeof *n.n);
  free(n.n);
  n.n = nullptr;
  by_token.erase(n.token);
}

static std::string name(size_t i)
{
  static const size_t length[] = {1, 3, 16, 200, 255, 15, 240, 31};
  return std::string(length[i % 8], (char) ('a' + i % 8));
}
static std::string some_dir()
{
  size_t i = vx::below(4);
  return i ? root + "/" + std::string(1, (char) ('A' + i)) : root;
}
static std::string some_path() { std::string d = some_dir(); return d + "/" + name(vx::below(8)); }
static uint32_t some_mask()
{
  static const uint32_t bits[] = {IN_CREATE, IN_DELETE, IN_MODIFY, IN_MOVED_FROM, IN_MOVED_TO, IN_ATTRIB, IN_CLOSE_WRITE, IN_OPEN, IN_DELETE_SELF, IN_MOVE_SELF, IN_CLOSE_NOWRITE};
  if (vx::chance(1, 3)) return IN_ALL_EVENTS;
  uint32_t m = 0;
  for (uint32_t b : bits) if (vx::chance(1, 2)) m |= b;
  if (!m) m = IN_CREATE | IN_MODIFY;
  if (vx::chance(1, 16)) m |= IN_ONESHOT;
  if (vx::chance(1, 16)) m |= IN_ONLYDIR;
  return m;
}
static void watch(N &n, bool everything = false)
{
  bool dir = everything || vx::chance(4, 5);
  std::string path = everything ? root : dir ? some_dir() : some_path();
  if (!everything && vx::chance(1, 12)) path += vx::chance(1, 2) ? "/missing" : "/";
  struct stat st;
  bool there = stat(path.c_str(), &st) == 0;
  if (there && n.inodes.count({st.st_dev, st.st_ino})) return; // one watch per file
  uint32_t m = everything ? IN_ALL_EVENTS : some_mask();
  int raw = inotify_add_watch(n.raw, path.c_str(), m);
  vx::Exact copy(path + std::string(1, '\0'));
  int id = notify_watch(n.n, copy.p, m);
  memset(copy.p, '#', copy.n);
  LOG("%swatch %s mask %x = %d", I(), path.c_str(), m, id);
  CHECK((id >= 0) == (raw >= 0), "watching %s gives %d, inotify gives %d", path.c_str(), id, raw);
  if (id < 0) { vx::count("watch refused"); return; }
  for (auto &w : n.watches) CHECK(w.id != id, "two watches have the identity %d", id);
  n.watches.push_back({id, raw, path});
  if (there) n.inodes.insert({st.st_dev, st.st_ino});
  if (in_loop) { interesting = true; vx::count("watch inside a callback"); }
}
// many files, each with a watch of its own
static bool crowd;
static std::string pool(size_t i) { return std::string(vx::scratch()) + "/w/" + std::to_string(i); }
static const size_t POOL = 700;
static void watch_pool(N &n)
{
  static bool made = false;
  if (!made)
  {
    mkdir((std::string(vx::scratch()) + "/w").c_str(), 0700);
    for (size_t i = 0; i < POOL; i++) { int fd = open(pool(i).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); CHECK(fd >= 0, "open: %m"); close(fd); }
    made = true;
  }
  size_t k = 20 + vx::below(POOL - 20);
  LOG("  watch %zu files", k);
  for (size_t i = 0; i < k; i++)
  {
    int raw = inotify_add_watch(n.raw, pool(i).c_str(), IN_MODIFY | IN_ATTRIB), id = notify_watch(n.n, (char *) pool(i).c_str(), IN_MODIFY | IN_ATTRIB);
    CHECK(raw >= 0 && id >= 0, "watch %zu gives %d, inotify gives %d", i, id, raw);
    for (auto &w : n.watches) CHECK(w.id != id, "two watches have the identity %d", id);
    n.watches.push_back({id, raw, pool(i)});
  }
  vx::count("hundreds of watches");
}
static void change(unsigned times = 1)
{
  if (crowd && vx::chance(2, 3))
  {
    if (in_loop) for (auto &n : ns) n->loose = true;
    size_t i = vx::below(vx::chance(1, 2) ? POOL : ns[0]->watches.size() + 1);
    LOG("%swrite %zu", I(), i);
    int fd = open(pool(i).c_str(), O_WRONLY);
    if (fd >= 0) { ssize_t r = write(fd, "x", 1); (void) r; close(fd); }
    return;
  }
  std::string a = some_path(), b;
  if (in_loop) for (auto &n : ns) n->loose = true;
  switch (vx::weighted({6, 5, 2, 3, 3, 1, 1, 1, 1}))
  {
  case 0: { LOG("%screate %s", I(), a.c_str()); int fd = open(a.c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); break; }
  case 1:
  {
    LOG("%swrite %s", I(), a.c_str());
    int fd = open(a.c_str(), O_WRONLY | O_APPEND);
    while (fd >= 0 && times--) { ssize_t k = write(fd, "x", 1); (void) k; if (times) { k = ftruncate(fd, 0); fchmod(fd, 0600); } }
    if (fd >= 0) close(fd);
    break;
  }
  case 2: LOG("%schmod %s", I(), a.c_str()); chmod(a.c_str(), 0700); break;
  case 3: b = some_path(); LOG("%srename %s %s", I(), a.c_str(), b.c_str()); rename(a.c_str(), b.c_str()); break;
  case 4: LOG("%sunlink %s", I(), a.c_str()); unlink(a.c_str()); break;
  case 5: LOG("%smkdir %s", I(), a.c_str()); mkdir(a.c_str(), 0700); break;
  case 6: LOG("%srmdir %s", I(), a.c_str()); rmdir(a.c_str()); break;
  case 7: a = some_dir(); LOG("%srmdir %s", I(), a.c_str()); if (a != root) rmdir(a.c_str()); break;
  case 8: a = some_dir(); LOG("%smkdir %s", I(), a.c_str()); mkdir(a.c_str(), 0700); break;
  }
}
static void program(N *self, unsigned mean)
{
  while (budget && vx::more(mean))
  {
    budget--;
    N &n = self && vx::chance(2, 3) ? *self : *ns[vx::below(ns.size())];
    if (!n.n) { construct(n); continue; }
    switch (vx::weighted({16, 4, 1, 1}))
    {
    case 0: change(); break;
    case 1: watch(n); break;
    case 2: if (in_loop && !vx::chance(1, 2)) break; LOG("%sclear", I()); forget(n); notify_clear(n.n); break;
    case 3: if (vx::chance(1, 2)) destroy(n); break;
    }
  }
}
static void callback(reactor_event *e)
{
  CHECK(in_loop, "a change is reported outside of the loop");
  auto it = by_token.find(e->state);
  CHECK(it != by_token.end(), "a destroyed watcher reports");
  N &n = *it->second;
  CHECK(e->type == NOTIFY_EVENT, "unknown event %d", e->type);
  notify_event *c = (notify_event *) e->data;
  size_t w = 0;
  while (w < n.watches.size() && n.watches[w].id != c->id) w++;
  CHECK(w < n.watches.size(), "a change (path %s, mask %x) is reported with the identity %d, which is not one of this watcher's", c->path, c->mask, c->id);
  CHECK(n.watches[w].path == c->path, "a change under %s is reported with the path %s", n.watches[w].path.c_str(), c->path);
  n.got.push_back({w, c->mask, c->name});
  reported.insert({&n, w});
  LOG("  change %s", show(n, n.got.back()).c_str());
  if (quiet && ns.size() == 1 && n.got.size() == 20 && vx::chance(3, 4))
  { // a change made when what the kernel keeps has overflowed and there is room again
    read_raw(n);
    std::string f = root + "/" + name(5);
    LOG("    create and write %s", f.c_str());
    vx::count("change after an overflow");
    int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0600);
    if (fd >= 0) { ssize_t r = write(fd, "x", 1); (void) r; close(fd); }
  }
  if (!quiet && vx::chance(1, 3)) program(&n, 1);
}
static int idle(void) { return 0; }
static void run()
{
  long i = vx_idle_count;
  in_loop = true;
  while (vx_idle_count == i) reactor_loop_once();
  in_loop = false;
}

static void clean(const std::string &d)
{
  for (size_t i = 0; i < 8; i++)
  {
    std::string p = d + "/" + name(i);
    if (unlink(p.c_str()) != 0) rmdir(p.c_str());
  }
  if (d == root) for (char c = 'B'; c <= 'D'; c++) { clean(root + "/" + c); }
  rmdir(d.c_str());
}

// half the events the kernel keeps for a reader, and a little more
static long flood_size(void)
{
  static long n = 0;
  if (!n)
  {
    n = 16384;
    if (FILE *f = fopen("/proc/sys/fs/inotify/max_queued_events", "r")) { if (fscanf(f, "%ld", &n) != 1) n = 16384; fclose(f); }
    n = n / 2 + 500;
  }
  return n;
}

void vx_case()
{
  ns.clear(); by_token.clear(); tokens.clear(); reported.clear();
  in_loop = interesting = false;
  budget = 500;
  root = std::string(vx::scratch()) + "/n";
  clean(root);
  mkdir(root.c_str(), 0700);
  for (char c = 'B'; c <= 'D'; c++) mkdir((root + "/" + c).c_str(), 0700);
  for (int &r : raws) if (r < 0) { r = inotify_init1(IN_NONBLOCK | IN_CLOEXEC); CHECK(r >= 0, "inotify_init1: %m"); }
  ZeroFd zero;
  int fds0 = vx::open_fds();
  vx_idle_hook = idle;
  reactor_construct();
  zero.later(fds0);
  for (size_t i = vx::below(12); i; i--) { int fd = open(some_path().c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); }
  size_t n = 1 + vx::below(2);
  bool flood = vx::chance(1, 80) && flood_size() < 100000;
  for (size_t i = 0; i < n; i++) { ns.emplace_back(new N); ns[i]->raw = raws[i]; construct(*ns[i]); if (flood && i == 0) watch(*ns[i], true); for (size_t k = vx::below(4); k; k--) watch(*ns[i]); }
  crowd = !flood && vx::chance(1, 30);
  if (crowd) watch_pool(*ns[0]);
  size_t rounds = 1 + vx::below(12);
  for (size_t k = 0; k < rounds; k++)
  {
    LOG("round %zu", k);
    if (k == 0 && flood)
    {
      LOG("  %ld writes and changes of mode of %s, in turn", flood_size(), name(2).c_str());
      std::string f = root + "/" + name(2);
      int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0600);
      for (int i = 0; i < flood_size(); i++) { ssize_t r = write(fd, "x", 1); fchmod(fd, 0600); (void) r; }
      close(fd);
    }
    quiet = k == 0 && flood && vx::chance(3, 4);
    if (!quiet) program(nullptr, vx::chance(1, 6) ? 60 : 6);
    run();
    quiet = false;
    for (auto &v : ns) if (v->n) compare(*v, true);
  }
  private_fds("inotify");
  for (auto &v : ns) if (v->n) destroy(*v);
  reactor_destruct();
  for (auto t : tokens) free(t);
  CHECK(vx::open_fds() == fds0, "%d descriptors leaked", vx::open_fds() - fds0);
  CHECK(vx::vx_live_blocks() == 0, "%ld blocks leaked", vx::vx_live_blocks());
  clean(root);
  std::map<N *, size_t> per;
  size_t most = 0;
  for (auto &r : reported) most = std::max(most, ++per[r.first]);
  if (interesting && most >= 2) vx::nontrivial();
}
