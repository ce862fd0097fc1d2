// Stand-ins for the system interface, seen only by the code under test: its
// objects are rewritten with objcopy --redefine-syms (see redefine.syms).
#include "vx.h"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <malloc.h>
#include <mutex>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <ctime>
#include <unistd.h>
#include <unordered_map>

int (*vx_idle_hook)(void) = nullptr;
int vx_idle_grace_ms = 0;
long vx_idle_count = 0, vx_epoll_calls = 0;
int (*vx_write_hook)(int, size_t *) = nullptr;
int (*vx_read_hook)(int, size_t *) = nullptr;
int (*vx_fault_hook)(const char *, int) = nullptr;
long long vx_time_offset_ns = 0;
int vx_time_frozen = 0;
long long vx_frozen_ns = 0;
long long vx_frozen_base_s = 0;
__thread long long vx_thread_clock_ns = 0;
long vx_timer_scale = 1;
long vx_addrinfo_live = 0;
int (*vx_getaddrinfo_hook)(const char *, const char *, const struct addrinfo *, struct addrinfo **) = nullptr;
int (*vx_freeaddrinfo_hook)(struct addrinfo *) = nullptr;

namespace
{
  std::mutex mtx;
  std::unordered_map<void *, size_t> &blocks() { static auto *m = new std::unordered_map<void *, size_t>; return *m; }
  size_t live_bytes;
  const size_t LIMIT = 1500u << 20;
  void add(void *p, size_t n)
  {
    if (!p) return;
    bool over;
    {
      std::lock_guard<std::mutex> g(mtx);
      blocks()[p] = n;
      live_bytes += n;
      over = live_bytes > LIMIT;
    }
    if (over) vx::fail("the code under test holds more than %zu MB", LIMIT >> 20);
  }
  void del(void *p)
  {
    if (!p) return;
    std::lock_guard<std::mutex> g(mtx);
    auto it = blocks().find(p);
    if (it == blocks().end()) return;
    live_bytes -= it->second;
    blocks().erase(it);
  }
  int fault(const char *call, int fd)
  {
    int e = vx_fault_hook ? vx_fault_hook(call, fd) : 0;
    if (e) errno = e;
    return e;
  }
}

extern "C"
{
long vx_live_blocks(void) { std::lock_guard<std::mutex> g(mtx); return (long) blocks().size(); }
long vx_live_bytes(void) { std::lock_guard<std::mutex> g(mtx); return (long) live_bytes; }

void *vx_malloc(size_t n) { void *p = malloc(n); add(p, n); return p; }
void *vx_calloc(size_t a, size_t b) { void *p = calloc(a, b); add(p, a * b); return p; }
void *vx_realloc(void *q, size_t n) { del(q); void *p = realloc(q, n); add(p, n); return p; }
void *vx_reallocarray(void *q, size_t a, size_t b) { return vx_realloc(q, a * b); }
void *vx_aligned_alloc(size_t a, size_t n) { void *p = aligned_alloc(a, n); add(p, n); return p; }
int vx_posix_memalign(void **p, size_t a, size_t n) { int e = posix_memalign(p, a, n); if (!e) add(*p, n); return e; }
void vx_free(void *p) { del(p); free(p); }
char *vx_strdup(const char *s) { char *p = strdup(s); add(p, strlen(s) + 1); return p; }
char *vx_strndup(const char *s, size_t n) { char *p = strndup(s, n); add(p, strlen(p) + 1); return p; }

int vx_epoll_pwait(int fd, struct epoll_event *ev, int max, int timeout, const sigset_t *mask)
{
  vx_epoll_calls++;
  if (timeout >= 0 || !vx_idle_hook) return epoll_pwait(fd, ev, max, timeout, mask);
  while (1)
  {
    int n = epoll_pwait(fd, ev, max, 0, mask);
    if (n != 0) return n;
    if (vx_idle_grace_ms)
    {
      n = epoll_pwait(fd, ev, max, vx_idle_grace_ms, mask);
      if (n != 0) return n;
    }
    if (!vx_idle_hook())
    {
      vx_idle_count++;
      errno = EINTR;
      return -1;
    }
  }
}
int vx_epoll_wait(int fd, struct epoll_event *ev, int max, int timeout) { return vx_epoll_pwait(fd, ev, max, timeout, nullptr); }

static int w_hook(int fd, size_t *n)
{
  if (!vx_write_hook) return 0;
  int e = vx_write_hook(fd, n);
  if (e) errno = e;
  return e;
}
static int r_hook(int fd, size_t *n)
{
  if (!vx_read_hook) return 0;
  int e = vx_read_hook(fd, n);
  if (e) errno = e;
  return e;
}
ssize_t vx_write(int fd, const void *b, size_t n) { return w_hook(fd, &n) ? -1 : write(fd, b, n); }
ssize_t vx_send(int fd, const void *b, size_t n, int f) { return w_hook(fd, &n) ? -1 : send(fd, b, n, f); }
ssize_t vx_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { return w_hook(fd, &n) ? -1 : sendto(fd, b, n, f, a, l); }
ssize_t vx_read(int fd, void *b, size_t n) { return r_hook(fd, &n) ? -1 : read(fd, b, n); }
ssize_t vx_recv(int fd, void *b, size_t n, int f) { return r_hook(fd, &n) ? -1 : recv(fd, b, n, f); }
ssize_t vx_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { return r_hook(fd, &n) ? -1 : recvfrom(fd, b, n, f, a, l); }
static size_t cut(const struct iovec *v, int c, struct iovec *o, size_t n)
{
  int k = 0;
  for (int i = 0; i < c && n; i++) { o[k] = v[i]; if (o[k].iov_len > n) o[k].iov_len = n; n -= o[k].iov_len; k++; }
  return k;
}
static size_t total(const struct iovec *v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; return n; }
ssize_t vx_writev(int fd, const struct iovec *v, int c)
{
  struct iovec o[64];
  size_t n = total(v, c), m = n;
  if (w_hook(fd, &n)) return -1;
  return n < m && c <= 64 ? writev(fd, o, (int) cut(v, c, o, n)) : writev(fd, v, c);
}
ssize_t vx_readv(int fd, const struct iovec *v, int c)
{
  struct iovec o[64];
  size_t n = total(v, c), m = n;
  if (r_hook(fd, &n)) return -1;
  return n < m && c <= 64 ? readv(fd, o, (int) cut(v, c, o, n)) : readv(fd, v, c);
}
ssize_t vx_sendmsg(int fd, const struct msghdr *h, int f)
{
  struct iovec o[64];
  struct msghdr g = *h;
  size_t n = total(h->msg_iov, (int) h->msg_iovlen), m = n;
  if (w_hook(fd, &n)) return -1;
  if (n < m && h->msg_iovlen <= 64) { g.msg_iovlen = cut(h->msg_iov, (int) h->msg_iovlen, o, n); g.msg_iov = o; }
  return sendmsg(fd, &g, f);
}

int vx_clock_gettime(clockid_t c, struct timespec *t)
{
  int e = clock_gettime(c, t);
  if (e == 0 && vx_thread_clock_ns && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE))
  {
    t->tv_sec = vx_thread_clock_ns / 1000000000;
    t->tv_nsec = vx_thread_clock_ns % 1000000000;
    return e;
  }
  if (e == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE))
  {
    long long ns = vx_time_frozen ? vx_frozen_ns : t->tv_sec * 1000000000LL + t->tv_nsec + vx_time_offset_ns;
    t->tv_sec = ns / 1000000000 + (vx_time_frozen ? vx_frozen_base_s : 0);
    t->tv_nsec = ns % 1000000000;
    if (vx_time_frozen && c == CLOCK_REALTIME_COARSE) t->tv_nsec -= t->tv_nsec % 4000000;
  }
  return e;
}
int vx_gettimeofday(struct timeval *tv, void *)
{
  struct timespec t;
  vx_clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t vx_time(time_t *p)
{
  struct timespec t;
  vx_clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
int vx_virtual_timers = 0;
namespace { struct Virtual { long long due, interval; }; std::unordered_map<int, Virtual> virtuals; }
void vx_advance(long long ns)
{
  vx_frozen_ns += ns;
  for (auto &[fd, v] : virtuals)
  {
    if (v.due < 0 || v.due > vx_frozen_ns) continue;
    struct itimerspec s = {};
    s.it_value.tv_nsec = 1;
    if (timerfd_settime(fd, 0, &s, nullptr) != 0) continue;
    struct pollfd p = {fd, POLLIN, 0};
    poll(&p, 1, 1000);
    v.due = v.interval ? v.due + ((vx_frozen_ns - v.due) / v.interval + 1) * v.interval : -1;
  }
}
int vx_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
  if (vx_virtual_timers)
  {
    struct itimerspec off = {};
    long long v = n->it_value.tv_sec * 1000000000LL + n->it_value.tv_nsec;
    int e = timerfd_settime(fd, 0, &off, o);
    if (e == 0) virtuals[fd] = {v ? (flags ? v : vx_frozen_ns + v) : -1, n->it_interval.tv_sec * 1000000000LL + n->it_interval.tv_nsec};
    return e;
  }
  if (vx_timer_scale <= 1) return timerfd_settime(fd, flags, n, o);
  struct itimerspec s;
  auto scale = [](struct timespec t) {
    long long ns = t.tv_sec * 1000000000LL + t.tv_nsec, d = ns / vx_timer_scale;
    if (ns && !d) d = 1;
    struct timespec r = {(time_t) (d / 1000000000), (long) (d % 1000000000)};
    return r;
  };
  s.it_interval = scale(n->it_interval);
  s.it_value = scale(n->it_value);
  return timerfd_settime(fd, flags, &s, o);
}
int vx_getaddrinfo(const char *h, const char *s, const struct addrinfo *i, struct addrinfo **r)
{
  int e = -12345;
  if (vx_getaddrinfo_hook) e = vx_getaddrinfo_hook(h, s, i, r);
  if (e == -12345) e = getaddrinfo(h, s, i, r);
  if (e == 0) __atomic_add_fetch(&vx_addrinfo_live, 1, __ATOMIC_SEQ_CST);
  return e;
}
void vx_freeaddrinfo(struct addrinfo *a)
{
  if (a) __atomic_sub_fetch(&vx_addrinfo_live, 1, __ATOMIC_SEQ_CST);
  if (a && vx_freeaddrinfo_hook && vx_freeaddrinfo_hook(a)) return;
  freeaddrinfo(a);
}
int vx_socket(int a, int b, int c) { return fault("socket", -1) ? -1 : socket(a, b, c); }
int vx_bind(int fd, const struct sockaddr *a, socklen_t l) { return fault("bind", fd) ? -1 : bind(fd, a, l); }
int vx_listen(int fd, int n) { return fault("listen", fd) ? -1 : listen(fd, n); }
int vx_connect(int fd, const struct sockaddr *a, socklen_t l) { return fault("connect", fd) ? -1 : connect(fd, a, l); }
int vx_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return fault("setsockopt", fd) ? -1 : setsockopt(fd, l, o, v, n); }
int vx_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { return fault("accept", fd) ? -1 : accept4(fd, a, l, f); }
int vx_accept(int fd, struct sockaddr *a, socklen_t *l) { return fault("accept", fd) ? -1 : accept(fd, a, l); }
int vx_close(int fd)
{
  if (vx_virtual_timers) virtuals.erase(fd);
  int e = fault("close", fd);
  if (e) { close(fd); errno = e; return -1; }
  return close(fd);
}
}
