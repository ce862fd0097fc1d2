// Descriptors the library makes for itself are not inherited by the programs the process runs.
#ifndef FDS_H
#define FDS_H
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
// kind: "[timerfd]", "[eventfd]", "[eventpoll]", "inotify"; the harness itself makes none of that kind that can be inherited
static inline void private_fds(const char *kind)
{
  for (int fd = 3; fd < 160; fd++)
  {
    if (fcntl(fd, F_GETFD) != 0) continue; // not open, or closed on exec
    char path[32], to[64];
    snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(path, to, sizeof to - 1);
    if (n < 0) continue;
    to[n] = 0;
    CHECK(strncmp(to, "anon_inode:", 11) || strcmp(to + 11, kind), "descriptor %d (%s) of the library stays open in programs the process executes", fd, to);
  }
}
#endif
