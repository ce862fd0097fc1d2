// Property-based testing engine used by every harness in /verif/harness.
//
// A case is a pure function of a "choice tape": a list of integers, each drawn
// below a bound.  Fresh cases draw the tape from a PRNG seeded by
// (VERIF_SEED, property, case index); others mutate a tape that reached new
// coverage of the code under test.  A failing tape is shrunk by deleting,
// zeroing and minimising entries, re-running each candidate in a fresh process.
#ifndef VX_H
#define VX_H
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace vx
{
  struct Spec
  {
    const char *id;
    const char *title;
    uint64_t quick;        // cases in the quick tier
    uint64_t thorough;     // cases in the thorough tier
    const char *rule;      // how cases are made, what makes one non-trivial
    double case_cpu_s = 20; // CPU seconds after which one case counts as non-terminating
    double case_wall_s = 60; // wall seconds without progress after which a case counts as blocked
    bool guided = true;    // use coverage-guided tape mutation
    const char *assumptions = nullptr; // '|'-separated
  };

  // --- choices -----------------------------------------------------------
  uint64_t below(uint64_t n);                     // [0, n), n >= 1; shrinks towards 0
  uint64_t range(uint64_t lo, uint64_t hi);       // [lo, hi]; shrinks towards lo
  bool chance(unsigned num, unsigned den);        // true with num/den; shrinks towards false
  bool more(unsigned mean);                       // loop condition; geometric with this mean; shrinks towards stop
  uint64_t bits(unsigned maxbits);                // log-uniform, boundary biased, < 2^maxbits
  size_t size(size_t max);                        // log-uniform size 0..max, boundary biased
  uint8_t byte();
  std::string bytes(size_t n);                    // every byte drawn (n small)
  std::string pattern(size_t n);                  // position-dependent content from one draw (n may be large)
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  size_t weighted(std::initializer_list<unsigned> w); // index by weight; shrinks towards index 0

  // --- reporting ---------------------------------------------------------
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
  bool logging();
  void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
  void count(const char *label, uint64_t n = 1); // classify
  void nontrivial();                             // this case satisfies the non-triviality rule
  std::string quote(const std::string &s, size_t max = 120);
  inline std::string quote(const void *p, size_t n, size_t max = 120) { return quote(std::string((const char *) p, n), max); }

  // --- environment of a worker -------------------------------------------
  const char *scratch();   // private directory of this worker (removed at the end)
  uint64_t seed();         // VERIF_SEED
  bool thorough();
  uint64_t case_index();
  int worker_index();

  // --- memory and descriptors of the code under test ----------------------
  extern "C" long vx_live_blocks(void);  // blocks allocated by the code under test and not freed
  extern "C" long vx_live_bytes(void);
  int open_fds();                        // number of open descriptors of the process
  // an exact-size heap copy: reading one byte past either end is caught by ASan
  struct Exact
  {
    char *p; size_t n;
    explicit Exact(const std::string &s) : p((char *) malloc(s.size())), n(s.size()) { if (n) memcpy(p, s.data(), n); }
    Exact(const Exact &) = delete;
    ~Exact() { free(p); }
  };
}

#define CHECK(cond, ...) do { if (!(cond)) vx::fail(__VA_ARGS__); } while (0)
#define LOG(...) do { if (vx::logging()) vx::logf(__VA_ARGS__); } while (0)

// provided by the harness
extern const vx::Spec vx_spec;
void vx_case();
// optional (weak) hooks
extern "C" void vx_worker_init(void);
extern "C" int vx_exhaustive(int worker, int workers, int tier, char *summary, size_t summary_size); // returns 0, or calls fail()
extern "C" void vx_probe_known(void);

// --- shims over the system interface of the code under test (see shim.cc) --
extern "C"
{
  // epoll: called when nothing is ready and the code asked to block for ever.
  // Return 1 to poll again, 0 to make epoll_wait return EINTR (the harness decided to stop).
  extern int (*vx_idle_hook)(void);
  extern int vx_idle_grace_ms;     // block this long for real before calling the hook
  extern long vx_idle_count;       // times an idle wait was interrupted
  extern long vx_epoll_calls;
  // I/O: may lower *n, or return an errno to inject (0: none)
  extern int (*vx_write_hook)(int fd, size_t *n);
  extern int (*vx_read_hook)(int fd, size_t *n);
  // generic fault points: name of the call; return an errno to inject (0: none)
  extern int (*vx_fault_hook)(const char *call, int fd);
  // time seen by the code under test: offset added to the realtime clock; if frozen, exactly vx_frozen_base_s seconds and vx_frozen_ns
  extern long long vx_time_offset_ns;
  extern int vx_time_frozen;
  extern long long vx_frozen_ns;
  extern long long vx_frozen_base_s;
  extern __thread long long vx_thread_clock_ns; // the clock of this thread, unless 0
  // timerfd_settime: intervals and delays are divided by this
  extern long vx_timer_scale;
  // timers of the code under test follow the frozen clock, which only vx_advance() moves (expirations that were passed over count as one)
  extern int vx_virtual_timers;
  void vx_advance(long long ns);
  extern long vx_addrinfo_live;
  // a stand-in for the system resolver; -12345: use the real one.  The other returns 1 if it released the list.
  struct addrinfo;
  extern int (*vx_getaddrinfo_hook)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
  extern int (*vx_freeaddrinfo_hook)(struct addrinfo *);
}
#endif
