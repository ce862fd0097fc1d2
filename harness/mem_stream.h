// A stream of the library whose input is a given byte string, filled through a socket pair and the loop.
#ifndef MEM_STREAM_H
#define MEM_STREAM_H
#include "common.h"
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>

struct Fed
{
  stream s;
  int peer;
  static void ignore(reactor_event *) {}
  // needs a constructed reactor
  explicit Fed(const std::string &in)
  {
    int p[2];
    CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "socketpair");
    peer = p[1];
    stream_construct(&s, ignore, nullptr);
    stream_open(&s, p[0], STREAM_READ, nullptr);
    size_t o = 0;
    for (int spins = 0; data_size(stream_read(&s)) < in.size(); spins++)
    {
      CHECK(spins < 100000, "stream input is stuck at %zu of %zu bytes", data_size(stream_read(&s)), in.size());
      if (o < in.size()) { ssize_t n = write(peer, in.data() + o, in.size() - o); if (n > 0) o += (size_t) n; }
      reactor_loop_once();
    }
  }
  // what the stream sends when flushed
  std::string sent()
  {
    std::string out;
    char b[65536];
    stream_flush(&s);
    for (int quiet = 0; quiet < 2;)
    {
      ssize_t n = read(peer, b, sizeof b);
      if (n > 0) { out.append(b, (size_t) n); quiet = 0; }
      else { quiet++; extern int fed_idle(void); vx_idle_hook = fed_idle; reactor_loop_once(); }
    }
    return out;
  }
  ~Fed() { stream_destruct(&s); close(peer); }
};
int fed_idle(void) { return 0; }
#endif
