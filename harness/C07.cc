// C07: strings through files and descriptors, with fragmented system calls.
#include "common.h"
#include <fcntl.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C07", "strings survive files and descriptors", 60000, 1500000,
  "one case is a list of write, read, save and load operations over files with generated previous content, pipes, socket pairs and unopenable paths, while the system accepts or returns "
  "a generated part of each request; non-trivial: a string was written or read in at least two partial system calls, or saved over a longer file"};

static std::vector<size_t> parts; // sizes to which successive calls are cut
static size_t calls;
static int cut(int, size_t *n)
{
  size_t k = parts[calls++ % parts.size()];
  if (k && k < 1000 && calls > 2000) k = 1000; // not forever
  if (k && k < *n) *n = k;
  return 0;
}

static std::string slurp(const std::string &path)
{
  std::string s;
  char b[65536];
  ssize_t n;
  int fd = open(path.c_str(), O_RDONLY);
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t) n);
  close(fd);
  return s;
}
static void spit(const std::string &path, const std::string &s)
{
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  for (size_t o = 0; o < s.size();) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += (size_t) n; }
  close(fd);
}
static std::string content()
{
  size_t n = vx::chance(1, 3000) ? 1000000 + vx::size(1500000) : vx::size(vx::chance(1, 20) ? 400000 : vx::chance(1, 2) ? 9000 : 40);
  return n < 8 ? vx::bytes(n) : vx::pattern(n);
}
// a string with this content that has seen some editing
static string make(const std::string &c)
{
  string s = string_null();
  unsigned way = vx::below(3);
  if (way == 0) return string_append_data(s, dat(c));
  std::string junk(1 + vx::below(30), 'j');
  s = string_append_data(s, dat(junk + c));
  s = string_erase_data(s, data_construct(s, junk.size()));
  return s;
}
struct Feed { int fd; std::string s; std::vector<size_t> cuts; };
static void *feed(void *a)
{
  Feed *f = (Feed *) a;
  for (size_t o = 0, i = 0; o < f->s.size(); i++)
  {
    size_t n = std::min(f->s.size() - o, f->cuts[i % f->cuts.size()]);
    ssize_t k = write(f->fd, f->s.data() + o, n);
    if (k <= 0) break;
    o += (size_t) k;
  }
  close(f->fd);
  return nullptr;
}
struct Drain { int fd; std::string s; };
static void *drain(void *a)
{
  Drain *d = (Drain *) a;
  char b[4096];
  ssize_t n;
  while ((n = read(d->fd, b, sizeof b)) > 0) d->s.append(b, (size_t) n);
  return nullptr;
}

void vx_case()
{
  long live0 = vx::vx_live_blocks();
  int fds0 = vx::open_fds();
  bool interesting = false;
  std::string path = std::string(vx::scratch()) + "/f";
  parts.assign(1, 0);
  if (vx::chance(3, 4))
  {
    parts.clear();
    size_t k = 1 + vx::below(5);
    for (size_t i = 0; i < k; i++) parts.push_back(vx::chance(1, 4) ? 0 : 1 + vx::size(vx::chance(1, 2) ? 5000 : 300));
    if (vx::chance(1, 2)) parts.push_back(0); // all that is left
  }
  calls = 0;
  vx_write_hook = vx_read_hook = cut;
  while (vx::more(3))
  {
    std::string c = content();
    size_t calls0 = calls;
    switch (vx::weighted({4, 4, 3, 3, 1, 2}))
    {
    case 0: // save
    {
      std::string old = content();
      spit(path, old);
      string s = make(c);
      LOG("save %zu bytes over %zu", c.size(), old.size());
      int e = string_save(s, path.c_str());
      CHECK(e == 0, "string_save returned %d for a writable file", e);
      std::string got = slurp(path);
      CHECK(got == c, "after string_save of %zu bytes over %zu the file has %zu bytes%s", c.size(), old.size(), got.size(), got.size() == c.size() ? " that differ" : "");
      CHECK(string_size(s) == c.size() && memcmp(s, c.data(), c.size()) == 0, "string_save changed the string");
      string_free(s);
      if (old.size() > c.size()) interesting = true;
      vx::count(old.size() > c.size() ? "save over longer" : "save");
      break;
    }
    case 1: // load
    {
      spit(path, c);
      LOG("load %zu bytes", c.size());
      string s = string_load(path.c_str());
      CHECK(string_size(s) == c.size() && memcmp(s, c.data(), c.size()) == 0 && s[c.size()] == 0, "string_load of %zu bytes gives %zu%s", c.size(), string_size(s), string_size(s) == c.size() ? " that differ" : "");
      string_free(s);
      vx::count("load");
      break;
    }
    case 2: // write to a descriptor, at its current position
    {
      string s = make(c);
      if (vx::chance(1, 2))
      {
        std::string before = content();
        spit(path, before);
        int fd = open(path.c_str(), O_WRONLY | O_APPEND);
        LOG("write %zu bytes to a file after %zu", c.size(), before.size());
        string_write(s, fd);
        CHECK(fcntl(fd, F_GETFD) != -1, "string_write closed the descriptor");
        close(fd);
        std::string got = slurp(path);
        CHECK(got == before + c, "string_write of %zu bytes leaves %zu bytes after the %zu already there", c.size(), got.size() - before.size(), before.size());
        vx::count("write file");
      }
      else
      {
        int p[2];
        bool sock = vx::chance(1, 2);
        if (sock) { CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "socketpair"); std::swap(p[0], p[1]); } else CHECK(pipe(p) == 0, "pipe");
        Drain d{p[0], ""};
        pthread_t t;
        pthread_create(&t, nullptr, drain, &d);
        LOG("write %zu bytes to a %s", c.size(), sock ? "socket" : "pipe");
        string_write(s, p[1]);
        close(p[1]);
        pthread_join(t, nullptr);
        close(p[0]);
        CHECK(d.s == c, "string_write of %zu bytes delivered %zu%s", c.size(), d.s.size(), d.s.size() == c.size() ? " that differ" : "");
        vx::count(sock ? "write socket" : "write pipe");
      }
      string_free(s);
      break;
    }
    case 3: // read from a descriptor to its end
    {
      unsigned how = vx::below(3);
      string s;
      if (how == 0)
      {
        spit(path, c);
        size_t skip = vx::below(c.size() + 1);
        int fd = open(path.c_str(), O_RDONLY);
        CHECK(lseek(fd, (off_t) skip, SEEK_SET) == (off_t) skip, "lseek");
        LOG("read %zu bytes of a file from %zu", c.size() - skip, skip);
        s = string_read(fd);
        CHECK(fcntl(fd, F_GETFD) != -1, "string_read closed the descriptor");
        close(fd);
        c = c.substr(skip);
        vx::count("read file");
      }
      else
      {
        int p[2];
        if (how == 1) { CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "socketpair"); } else CHECK(pipe(p) == 0, "pipe");
        Feed f{p[1], c, {}};
        do f.cuts.push_back(1 + vx::size(vx::chance(1, 2) ? 9000 : 100)); while (vx::more(3));
        if (c.size() > 20000) for (auto &x : f.cuts) x += 500;
        pthread_t t;
        pthread_create(&t, nullptr, feed, &f);
        LOG("read %zu bytes from a %s", c.size(), how == 1 ? "socket" : "pipe");
        s = string_read(p[0]);
        pthread_join(t, nullptr);
        close(p[0]);
        vx::count(how == 1 ? "read socket" : "read pipe");
      }
      CHECK(string_size(s) == c.size() && memcmp(s, c.data(), c.size()) == 0 && s[c.size()] == 0, "string_read of %zu bytes gives %zu%s", c.size(), string_size(s), string_size(s) == c.size() ? " that differ" : "");
      string_free(s);
      break;
    }
    case 4: // cannot be opened
    {
      std::string bad = vx::chance(1, 2) ? path + "/x" : std::string(vx::scratch()) + "/missing/" + std::to_string(vx::below(10));
      if (vx::chance(1, 4)) bad = "";
      spit(path, "x");
      string s = make(c);
      LOG("save and load unopenable path");
      int e = string_save(s, bad.c_str());
      CHECK(e == -1, "string_save to a path that cannot be opened returns %d", e);
      string l = string_load(bad.c_str());
      CHECK(string_size(l) == 0 && string_empty(l) && l[0] == 0, "string_load of a path that cannot be opened is not empty");
      string_free(l);
      string_free(s);
      vx::count("unopenable");
      break;
    }
    case 5: // round trip, then edit to empty and free
    {
      spit(path, "");
      string s = make(c);
      LOG("round trip of %zu bytes", c.size());
      CHECK(string_save(s, path.c_str()) == 0, "string_save failed");
      string l = string_load(path.c_str());
      CHECK(string_equal(s, l), "loading what was saved gives a different string");
      s = string_resize(s, 0);
      l = string_erase_data(l, string_data(l));
      CHECK(string_save(s, path.c_str()) == 0, "string_save failed");
      CHECK(slurp(path).empty(), "saving an emptied string leaves content in the file");
      string_free(s);
      string_free(l);
      vx::count("round trip, then emptied");
      if (c.size()) interesting = true;
      break;
    }
    }
    if (calls - calls0 >= 3 && parts.size() > 1) interesting = true;
    CHECK(vx::open_fds() == fds0, "%d descriptors open, expected %d", vx::open_fds(), fds0);
    CHECK(vx::vx_live_blocks() == live0, "%ld blocks leaked", vx::vx_live_blocks() - live0);
  }
  if (interesting) vx::nontrivial();
}
