#ifndef COMMON_H
#define COMMON_H
#include "vx.h"
// server.h is not valid C++ (a member named like its type); harnesses that need the server use srv.h
#define REACTOR_SERVER_H_INCLUDED
#include "reactor.h"
extern "C"
{
  void c_mapi_each(mapi *, void (*)(void *, uintptr_t, uintptr_t), void *);
  void c_maps_each(maps *, void (*)(void *, const char *, uintptr_t), void *);
}
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <fcntl.h>
#include <unistd.h>

// in some cases descriptor number 0 is free, from before the loop is constructed or from after; it is /dev/null otherwise
struct ZeroFd
{
  unsigned how;
  ZeroFd()
  {
    if (fcntl(0, F_GETFD) == -1) restore();
    how = (unsigned) vx::below(24);
    if (how == 1) { LOG("descriptor 0 is free"); close(0); vx::count("descriptor 0 in use"); }
  }
  template <class N> void later(N &fds) { if (how == 2) { LOG("descriptor 0 is free from here"); close(0); fds--; vx::count("descriptor 0 in use"); } }
  static void restore() { if (fcntl(0, F_GETFD) == -1) { int fd = open("/dev/null", O_RDONLY); if (fd > 0) { dup2(fd, 0); close(fd); } } }
  ~ZeroFd() { restore(); }
};

static inline std::string str(data d) { return d.size ? std::string((const char *) d.base, d.size) : std::string(); }
static inline data dat(const std::string &s) { return data_construct(s.data(), s.size()); }
static inline data dat(const vx::Exact &e) { return data_construct(e.p, e.n); }
#endif
