#include "vx.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <map>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
#include <unordered_set>

extern "C" __attribute__((weak)) void vx_worker_init(void) {}
extern "C" __attribute__((weak)) int vx_exhaustive(int, int, int, char *, size_t) { return -1; }
extern "C" __attribute__((weak)) void vx_probe_known(void) {}
extern "C" __attribute__((weak)) int vx_has_exhaustive;

namespace vx
{
  static const int MAXW = 16, MAXC = 160, NSAMPLES = 3;
  static const size_t TAPE_MAX = 1 << 18, HASH_MAX = 4 << 20, LOG_MAX = 6000, SAMPLE_LOG = 1500;

  struct Counter { char name[56]; uint64_t n; };
  struct Shared
  {
    std::atomic<uint64_t> progress;
    uint64_t index;            // case index being run
    std::atomic<int> state;    // 0 idle, 1 running case, 2 finished
    uint64_t done;
    int failed;                // fail() was called
    char message[2000];
    uint64_t tape_n;
    uint64_t ncounters;
    Counter counters[MAXC];
    uint64_t nontrivial_cases;
    uint64_t hashes_n;
    uint64_t corpus, edges, edges_total, guided;
    int nsamples;
    char samples[NSAMPLES][SAMPLE_LOG];
    char log[LOG_MAX];
    uint64_t log_n;
    char exh[500];
    int exh_ret;
    uint64_t tape[TAPE_MAX];
    uint64_t hashes[HASH_MAX];
  };

  static Shared *S = nullptr;            // this process's slot
  static std::vector<uint64_t> in_tape;  // tape to replay
  static size_t in_pos;
  static bool replaying;                 // draw from in_tape, zeros afterwards
  static bool mutating;                  // draw from in_tape, PRNG afterwards
  static bool logging_on;
  static bool is_nontrivial;
  static uint64_t rng_state[4];
  static uint64_t g_seed = 1;
  static bool g_thorough;
  static std::string g_scratch_base, g_scratch;
  static int g_worker;

  static uint64_t splitmix(uint64_t &x)
  {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  static uint64_t rng()
  {
    uint64_t *s = rng_state, r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  static uint64_t id_hash()
  {
    uint64_t h = 1469598103934665603ULL;
    for (const char *p = vx_spec.id; *p; p++) h = (h ^ (uint8_t) *p) * 1099511628211ULL;
    return h;
  }
  static void rng_seed(uint64_t seed, uint64_t index, uint64_t salt)
  {
    uint64_t x = id_hash() ^ (seed * 0x9e3779b97f4a7c15ULL) ^ salt;
    x = splitmix(x) ^ index;
    for (auto &r : rng_state) r = splitmix(x);
  }

  // --- choices ------------------------------------------------------------
  uint64_t below(uint64_t n)
  {
    uint64_t v;
    if (n == 0) n = 1;
    if ((replaying || mutating) && in_pos < in_tape.size()) v = in_tape[in_pos++] % n;
    else if (replaying) v = 0;
    else v = n == 1 ? 0 : (uint64_t) (((unsigned __int128) rng() * n) >> 64);
    if (S->tape_n < TAPE_MAX) S->tape[S->tape_n++] = v;
    return v;
  }
  uint64_t range(uint64_t lo, uint64_t hi)
  {
    return hi <= lo ? lo : hi - lo == UINT64_MAX ? below(UINT64_MAX) : lo + below(hi - lo + 1);
  }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  bool more(unsigned mean)
  {
    if (S->tape_n >= TAPE_MAX - 4096) return false;
    return below(mean + 1) != 0;
  }
  uint64_t bits(unsigned maxbits)
  {
    unsigned k = below(maxbits + 1);
    uint64_t top = k == 0 ? 0 : 1ULL << (k - 1), mask = k == 64 ? UINT64_MAX : (1ULL << k) - 1;
    switch (below(4))
    {
    case 0: return top;
    case 1: return mask;
    default: return k == 0 ? 0 : top | (below(k == 64 ? UINT64_MAX : mask + 1) & (top ? top - 1 : 0));
    }
  }
  size_t size(size_t max)
  {
    unsigned b = 0;
    while (b < 63 && (1ULL << b) <= max) b++;
    unsigned k = below(b + 2);
    if (k == b + 1) return max;
    uint64_t hi = (1ULL << k);
    switch (below(4))
    {
    case 0: return std::min<uint64_t>(hi - 1, max);
    case 1: return std::min<uint64_t>(hi, max);
    default: return std::min<uint64_t>(below(hi + 1), max);
    }
  }
  uint8_t byte() { return below(256); }
  std::string bytes(size_t n)
  {
    std::string s(n, 0);
    for (auto &c : s) c = (char) byte();
    return s;
  }
  std::string pattern(size_t n)
  {
    uint64_t x = below(1 << 16);
    std::string s(n, 0);
    uint64_t y = x * 0x9e3779b97f4a7c15ULL + 1;
    for (size_t i = 0; i < n; i++)
    {
      if (i % 8 == 0) { y ^= y << 13; y ^= y >> 7; y ^= y << 17; }
      s[i] = (char) (y >> (8 * (i % 8)));
    }
    return s;
  }
  size_t weighted(std::initializer_list<unsigned> w)
  {
    uint64_t sum = 0, v;
    for (auto x : w) sum += x;
    v = below(sum);
    size_t i = 0;
    for (auto x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
  }

  // --- reporting ----------------------------------------------------------
  void fail(const char *fmt, ...)
  {
    va_list ap;
    va_start(ap, fmt);
    if (S && !S->failed)
    {
      S->failed = 1;
      vsnprintf(S->message, sizeof S->message, fmt, ap);
    }
    va_end(ap);
    if (!S) { va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); }
    _exit(77);
  }
  bool logging() { return logging_on; }
  void logf(const char *fmt, ...)
  {
    if (!logging_on || S->log_n + 2 >= LOG_MAX) return;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(S->log + S->log_n, LOG_MAX - S->log_n - 2, fmt, ap);
    va_end(ap);
    if (n > 0) S->log_n = std::min<uint64_t>(S->log_n + n, LOG_MAX - 3);
    S->log[S->log_n++] = '\n';
    S->log[S->log_n] = 0;
  }
  void count(const char *label, uint64_t n)
  {
    static std::map<const void *, int> cache;
    auto it = cache.find(label);
    if (it != cache.end() && strcmp(S->counters[it->second].name, label) == 0) { S->counters[it->second].n += n; return; }
    for (uint64_t i = 0; i < S->ncounters; i++)
      if (strcmp(S->counters[i].name, label) == 0) { S->counters[i].n += n; cache[label] = (int) i; return; }
    if (S->ncounters == MAXC) return;
    snprintf(S->counters[S->ncounters].name, sizeof S->counters[0].name, "%s", label);
    S->counters[S->ncounters].n = n;
    cache[label] = (int) S->ncounters++;
  }
  void nontrivial() { is_nontrivial = true; }
  std::string quote(const std::string &s, size_t max)
  {
    std::string o = "\"";
    char b[8];
    for (size_t i = 0; i < s.size() && i < max; i++)
    {
      unsigned char c = s[i];
      if (c == '\n') o += "\\n";
      else if (c == '\r') o += "\\r";
      else if (c == '\t') o += "\\t";
      else if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
      else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
      else o += (char) c;
    }
    o += "\"";
    if (s.size() > max) { char t[40]; snprintf(t, sizeof t, "...(%zu bytes)", s.size()); o += t; }
    return o;
  }
  const char *scratch()
  {
    if (g_scratch.empty())
    {
      g_scratch = g_scratch_base + "/w" + std::to_string(getpid());
      if (mkdir(g_scratch.c_str(), 0700) != 0 && errno != EEXIST) { perror("scratch"); _exit(2); }
    }
    return g_scratch.c_str();
  }
  uint64_t seed() { return g_seed; }
  bool thorough() { return g_thorough; }
  uint64_t case_index() { return S->index; }
  int worker_index() { return g_worker; }
  int open_fds()
  {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
  }

  // --- coverage -----------------------------------------------------------
  static uint8_t *cov_start, *cov_end;
  static std::vector<uint8_t> virgin;
  static bool cov_update()
  {
    bool fresh = false;
    size_t n = cov_end - cov_start;
    if (virgin.size() != n) virgin.assign(n, 0);
    for (size_t i = 0; i < n; )
    {
      if (i + 8 <= n && *(uint64_t *) (cov_start + i) == 0) { i += 8; continue; }
      uint8_t c = cov_start[i];
      if (c)
      {
        uint8_t b = c >= 128 ? 128 : c >= 32 ? 64 : c >= 16 ? 32 : c >= 8 ? 16 : c >= 4 ? 8 : c >= 3 ? 4 : c >= 2 ? 2 : 1;
        if (!(virgin[i] & b)) { if (!virgin[i]) S->edges++; virgin[i] |= b; fresh = true; }
        cov_start[i] = 0;
      }
      i++;
    }
    return fresh;
  }

  // --- running one case ---------------------------------------------------
  static void on_prof(int) { fail("case did not finish within %.0f s of CPU time (non-termination)", vx_spec.case_cpu_s); }
  static void arm(double s)
  {
    struct itimerval it = {};
    it.it_value.tv_sec = (time_t) s;
    it.it_value.tv_usec = (suseconds_t) ((s - (double) (time_t) s) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
  }
  static void run_one()
  {
    S->tape_n = 0; S->log_n = 0; S->log[0] = 0; in_pos = 0; is_nontrivial = false;
    arm(vx_spec.case_cpu_s);
    S->state = 1;
    vx_case();
    S->state = 0;
  }
  static uint64_t tape_hash()
  {
    uint64_t h = 0x243f6a8885a308d3ULL ^ S->tape_n;
    for (uint64_t i = 0; i < S->tape_n; i++) { h ^= S->tape[i] + 0x9e3779b97f4a7c15ULL; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; }
    return h;
  }
  static void process_init()
  {
    signal(SIGPROF, on_prof);
    signal(SIGPIPE, SIG_IGN);
    virgin.clear();
    vx_worker_init();
  }

  static void mutate(std::vector<uint64_t> &t, const std::vector<std::vector<uint64_t>> &corpus)
  {
    unsigned k = 1 + rng() % 4;
    while (k--)
    {
      size_t n = t.size();
      if (!n) return;
      size_t i = rng() % n;
      switch (rng() % 8)
      {
      case 0: t[i] = rng(); break;
      case 1: t[i] += 1; break;
      case 2: t[i] -= t[i] ? 1 : 0; break;
      case 3: t.resize(i); break;
      case 4: { size_t l = std::min<size_t>(1 + rng() % 16, n - i); t.erase(t.begin() + i, t.begin() + i + l); break; }
      case 5: { size_t l = std::min<size_t>(1 + rng() % 32, n - i); std::vector<uint64_t> c(t.begin() + i, t.begin() + i + l); size_t j = rng() % n; t.insert(t.begin() + j, c.begin(), c.end()); break; }
      case 6: { auto &o = corpus[rng() % corpus.size()]; if (!o.empty()) { size_t j = rng() % o.size(); t.resize(i); t.insert(t.end(), o.begin() + j, o.end()); } break; }
      case 7: t.insert(t.begin() + i, rng()); break;
      }
    }
    if (t.size() > TAPE_MAX / 2) t.resize(TAPE_MAX / 2);
  }

  // runs cases first, first+step, ... <= last; the sequence is deterministic
  static void run_sequence(uint64_t first, uint64_t step, uint64_t last, double wall_cap, bool sampling)
  {
    std::vector<std::vector<uint64_t>> corpus;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    bool cov = vx_spec.guided && cov_end > cov_start;
    S->edges_total = cov_end - cov_start;
    if (cov) memset(cov_start, 0, cov_end - cov_start);
    for (uint64_t i = first; i <= last; i += step)
    {
      S->index = i;
      rng_seed(g_seed, i, 0);
      mutating = false;
      if (cov && !corpus.empty() && rng() % 100 < 45)
      {
        size_t n = corpus.size(), a = rng() % n;
        if (rng() % 2) a = n - 1 - rng() % std::min<size_t>(n, 16);
        in_tape = corpus[a];
        mutate(in_tape, corpus);
        mutating = true;
        S->guided++;
      }
      logging_on = sampling && S->nsamples < NSAMPLES;
      run_one();
      S->done++;
      S->progress++;
      if (is_nontrivial)
      {
        S->nontrivial_cases++;
        if (S->hashes_n < HASH_MAX) S->hashes[S->hashes_n++] = tape_hash();
        if (logging_on && S->log_n) { snprintf(S->samples[S->nsamples], SAMPLE_LOG, "%s", S->log); S->nsamples++; }
      }
      if (cov && cov_update() && S->tape_n < 4096)
      {
        if (corpus.size() < 4000) corpus.emplace_back(S->tape, S->tape + S->tape_n);
        else corpus[rng() % corpus.size()].assign(S->tape, S->tape + S->tape_n);
        S->corpus = corpus.size();
      }
      if (wall_cap > 0 && S->done % 16 == 0)
      {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((double) (t1.tv_sec - t0.tv_sec) > wall_cap) break;
      }
    }
    arm(0);
    S->state = 2;
  }

  // --- fresh process execution (replay and shrinking) ----------------------
  struct Outcome { bool failed; std::string message, log, err; std::vector<uint64_t> tape; };
  static Shared *R; // slot for replays
  static std::string err_path;

  static std::string read_file(const std::string &p, size_t max)
  {
    std::string s;
    FILE *f = fopen(p.c_str(), "r");
    if (!f) return s;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < max) s.append(b, n);
    fclose(f);
    return s;
  }
  static std::string describe(int status, Shared *s, const std::string &err, bool hung)
  {
    if (s->failed) return s->message;
    if (hung) return "case blocked for ever";
    std::string what;
    size_t p = err.find("ERROR: AddressSanitizer");
    if (p != std::string::npos) what = err.substr(p, err.find('\n', p) - p);
    else if ((p = err.find("Assertion")) != std::string::npos) { size_t b = err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; what = err.substr(b, err.find('\n', p) - b); }
    else what = err.substr(0, 300);
    char b[100];
    if (WIFSIGNALED(status)) snprintf(b, sizeof b, "process killed by signal %d: ", WTERMSIG(status));
    else snprintf(b, sizeof b, "process exited with %d: ", WEXITSTATUS(status));
    return b + what;
  }
  // waits for pid; kills it after wall_s; returns status
  static int wait_child(pid_t pid, double wall_s, bool *hung)
  {
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    int st;
    *hung = false;
    useconds_t nap = 200;
    while (1)
    {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) return st;
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) / 1e9 > wall_s)
      {
        *hung = true;
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        return st;
      }
      usleep(nap);
      if (nap < 5000) nap *= 2;
    }
  }
  static void child_setup(const std::string &errfile)
  {
    setpgid(0, 0);
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); if (fd != 2) close(fd); }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    g_scratch.clear();
  }
  static void drop_scratch(pid_t pid)
  {
    std::error_code ec;
    std::filesystem::remove_all(g_scratch_base + "/w" + std::to_string(pid), ec);
  }
  static void reset_slot(Shared *s) { size_t off = offsetof(Shared, tape); memset((void *) s, 0, off); }

  static Outcome run_tape(const std::vector<uint64_t> &tape, bool log)
  {
    reset_slot(R);
    pid_t pid = fork();
    if (pid == 0)
    {
      child_setup(err_path);
      S = R;
      logging_on = log;
      replaying = true;
      in_tape = tape;
      process_init();
      run_one();
      arm(0);
      S->state = 2;
      fflush(nullptr);
      _exit(0);
    }
    bool hung;
    int st = wait_child(pid, vx_spec.case_wall_s, &hung);
    drop_scratch(pid);
    Outcome o;
    o.failed = hung || R->failed || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
    o.err = read_file(err_path, 20000);
    o.message = o.failed ? describe(st, R, o.err, hung) : "";
    o.log = R->log;
    o.tape.assign(R->tape, R->tape + R->tape_n);
    return o;
  }
  static Outcome run_seq_fresh(uint64_t first, uint64_t step, uint64_t last)
  {
    reset_slot(R);
    pid_t pid = fork();
    if (pid == 0)
    {
      child_setup(err_path);
      S = R;
      process_init();
      run_sequence(first, step, last, 0, false);
      fflush(nullptr);
      _exit(0);
    }
    bool hung = false;
    int st;
    uint64_t last_progress = 0;
    time_t last_t = time(nullptr);
    while (1)
    {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      if (R->progress != last_progress) { last_progress = R->progress; last_t = time(nullptr); }
      if ((double) (time(nullptr) - last_t) > vx_spec.case_wall_s)
      {
        hung = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break;
      }
      usleep(5000);
    }
    drop_scratch(pid);
    Outcome o;
    o.failed = hung || R->failed || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
    o.err = read_file(err_path, 20000);
    o.message = o.failed ? describe(st, R, o.err, hung) : "";
    return o;
  }

  static Outcome run_exhaustive_fresh(int w, int workers)
  {
    reset_slot(R);
    pid_t pid = fork();
    if (pid == 0)
    {
      child_setup(err_path);
      S = R;
      g_worker = w;
      process_init();
      S->index = UINT64_MAX;
      arm(1800);
      vx_exhaustive(w, workers, g_thorough, S->exh, sizeof S->exh);
      _exit(0);
    }
    bool hung;
    int st = wait_child(pid, 1800, &hung);
    drop_scratch(pid);
    Outcome o;
    o.failed = hung || R->failed || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
    o.err = read_file(err_path, 20000);
    o.message = o.failed ? describe(st, R, o.err, hung) : "";
    return o;
  }

  static double now_s()
  {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + (double) t.tv_nsec / 1e9;
  }

  static std::vector<uint64_t> shrink(std::vector<uint64_t> t, double budget_s, unsigned *attempts)
  {
    double t0 = now_s();
    auto over = [&] { return now_s() - t0 > budget_s || *attempts > 3000; };
    auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
      if (a.size() != b.size()) return a.size() < b.size();
      return a < b;
    };
    auto attempt = [&](const std::vector<uint64_t> &c) {
      if (over()) return false;
      ++*attempts;
      Outcome o = run_tape(c, false);
      if (!o.failed) return false;
      auto n = o.tape; // what was actually consumed
      while (!n.empty() && n.back() == 0) n.pop_back();
      if (better(n, t)) t = n;
      else if (better(c, t)) t = c;
      else return false;
      return true;
    };
    attempt(t);
    bool progress = true;
    while (progress && !over())
    {
      progress = false;
      for (size_t len = t.size() / 2; len >= 1 && !over(); len /= 2)       // truncate, delete chunks
        for (size_t i = t.size(); i > 0 && !over(); )
        {
          size_t b = i > len ? i - len : 0;
          if (i > t.size()) { i = t.size(); if (!i) break; b = i > len ? i - len : 0; }
          auto c = t;
          c.erase(c.begin() + b, c.begin() + i);
          if (attempt(c)) { progress = true; i = std::min(b, t.size()); }
          else i = b;
        }
      for (size_t len = 8; len >= 1 && !over(); len /= 2)                   // zero chunks
        for (size_t i = 0; i < t.size() && !over(); i += len)
        {
          auto c = t;
          bool nz = false;
          for (size_t j = i; j < std::min(i + len, c.size()); j++) { nz |= c[j] != 0; c[j] = 0; }
          if (nz && attempt(c)) progress = true;
        }
      for (size_t i = 0; i < t.size() && !over(); i++)                      // minimise values
      {
        uint64_t lo = 0;
        while (i < t.size() && lo < t[i] && !over())
        {
          auto c = t;
          uint64_t mid = lo + (t[i] - lo) / 2;
          c[i] = mid;
          if (attempt(c)) progress = true;
          else lo = mid + 1;
        }
      }
    }
    return t;
  }

  // --- parent ---------------------------------------------------------------
  static std::string json(const std::string &s)
  {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s)
    {
      if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
      else if (c == '\n') o += "\\n";
      else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char) c;
    }
    return o + "\"";
  }
  static Shared *slot()
  {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared *) p;
  }

  static std::string verif_dir = ".";
  static std::string write_replay(const std::string &kind, const std::vector<uint64_t> &tape, uint64_t first, uint64_t step, uint64_t last,
                                  const Outcome &o)
  {
    std::string dir = verif_dir + "/replays", path;
    mkdir(dir.c_str(), 0755);
    path = dir + "/" + vx_spec.id + "-seed" + std::to_string(g_seed) + (g_thorough ? "-thorough" : "") + ".replay";
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return "/dev/null";
    fprintf(f, "property %s\nseed %llu\ntier %s\nkind %s\n", vx_spec.id, (unsigned long long) g_seed, g_thorough ? "thorough" : "quick", kind.c_str());
    if (kind == "tape")
    {
      fprintf(f, "tape %zu", tape.size());
      for (auto v : tape) fprintf(f, " %llu", (unsigned long long) v);
      fprintf(f, "\n");
    }
    else fprintf(f, "sequence %llu %llu %llu\n", (unsigned long long) first, (unsigned long long) step, (unsigned long long) last);
    fprintf(f, "---\nfailure: %s\n--- case\n%s--- stderr\n%s\n", o.message.c_str(), o.log.c_str(), o.err.c_str());
    fclose(f);
    return path;
  }

  static int replay_file(const char *path)
  {
    FILE *f = fopen(path, "r");
    if (!f) { perror(path); return 2; }
    char key[64];
    std::string kind;
    std::vector<uint64_t> tape;
    unsigned long long a = 0, b = 1, c = 0, v;
    while (fscanf(f, "%63s", key) == 1)
    {
      std::string k = key;
      char val[64];
      if (k == "---") break;
      if (k == "tape") { if (fscanf(f, "%llu", &a) != 1) return 2; while (a-- && fscanf(f, "%llu", &v) == 1) tape.push_back(v); }
      else if (k == "sequence") { if (fscanf(f, "%llu %llu %llu", &a, &b, &c) != 3) return 2; }
      else if (fscanf(f, "%63s", val) == 1)
      {
        if (k == "kind") kind = val;
        if (k == "seed") g_seed = strtoull(val, nullptr, 10);
        if (k == "tier") g_thorough = std::string(val) == "thorough";
        if (k == "property" && std::string(val) != vx_spec.id) { fprintf(stderr, "replay is for %s\n", val); return 2; }
      }
    }
    fclose(f);
    Outcome o;
    if (kind == "exhaustive") o = run_exhaustive_fresh((int) a, (int) b);
    else o = kind == "tape" ? run_tape(tape, true) : run_seq_fresh(a, b, c);
    printf("%s", o.log.c_str());
    if (o.failed)
    {
      printf("%s\nfailure: %s\n", o.err.c_str(), o.message.c_str());
      printf("VIOLATION property=%s replay=%s\n", vx_spec.id, path);
      return 1;
    }
    printf("replay did not fail\n");
    return 0;
  }

  int main(int argc, char **argv)
  {
    const char *tier = getenv("VERIF_TIER"), *seedenv = getenv("VERIF_SEED"), *replay = nullptr;
    int workers = 8;
    uint64_t cases = 0;
    for (int i = 1; i < argc; i++)
    {
      std::string a = argv[i];
      auto val = [&] { return i + 1 < argc ? argv[++i] : (char *) ""; };
      if (a == "--tier") tier = val();
      else if (a == "--seed") seedenv = val();
      else if (a == "--cases") cases = strtoull(val(), nullptr, 10);
      else if (a == "--workers") workers = atoi(val());
      else if (a == "--replay") replay = val();
      else if (a == "--dir") verif_dir = val();
    }
    g_thorough = tier && std::string(tier) == "thorough";
    if (seedenv && *seedenv) g_seed = strtoull(seedenv, nullptr, 10);
    if (!cases) cases = g_thorough ? vx_spec.thorough : vx_spec.quick;
    workers = std::max(1, std::min(workers, MAXW));
    char tmpl[] = "/tmp/vx.XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    g_scratch_base = tmpl;
    struct Cleanup { ~Cleanup() { std::error_code ec; std::filesystem::remove_all(g_scratch_base, ec); } } cleanup;
    err_path = g_scratch_base + "/err.replay";
    R = slot();
    if (replay) return replay_file(replay);

    double t0 = now_s(), wall_cap = g_thorough ? 3 * 3600 : 300;
    bool has_exh = false;
    std::vector<Shared *> slots(workers);
    std::vector<pid_t> pids(workers);
    std::vector<std::string> errs(workers);
    for (int w = 0; w < workers; w++)
    {
      slots[w] = slot();
      errs[w] = g_scratch_base + "/err." + std::to_string(w);
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0)
      {
        child_setup(errs[w]);
        S = slots[w];
        g_worker = w;
        process_init();
        S->state = 1;
        S->index = UINT64_MAX;
        arm(g_thorough ? 1800 : 200);
        S->exh_ret = vx_exhaustive(w, workers, g_thorough, S->exh, sizeof S->exh);
        if (S->exh_ret >= 0) S->progress++;
        if (cases > (uint64_t) w) run_sequence(w, workers, cases - 1, wall_cap, w == 0);
        else S->state = 2;
        fflush(nullptr);
        _exit(0);
      }
      pids[w] = pid;
    }

    // monitor
    std::vector<uint64_t> prog(workers, 0);
    std::vector<double> prog_t(workers, now_s());
    std::vector<int> alive(workers, 1);
    int nalive = workers, bad = -1;
    bool bad_hung = false;
    int bad_status = 0;
    unsigned unreproduced = 0;
    std::string bad_note;
    int violations = 0;
    while (nalive > 0)
    {
      bool any = false;
      for (int w = 0; w < workers && bad < 0; w++)
      {
        if (!alive[w]) continue;
        int st;
        pid_t r = waitpid(pids[w], &st, WNOHANG);
        if (r == pids[w])
        {
          any = true;
          alive[w] = 0; nalive--;
          drop_scratch(pids[w]);
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w]->state == 2)) { bad = w; bad_status = st; bad_hung = false; }
          continue;
        }
        if (slots[w]->progress != prog[w]) { prog[w] = slots[w]->progress; prog_t[w] = now_s(); }
        else if (slots[w]->index != UINT64_MAX && now_s() - prog_t[w] > vx_spec.case_wall_s)
        {
          kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          drop_scratch(pids[w]);
          alive[w] = 0; nalive--;
          bad = w; bad_status = st; bad_hung = true;
        }
      }
      if (bad >= 0)
      {
        // a worker failed: stop nothing yet, decide whether it is real
        Shared *s = slots[bad];
        std::string err = read_file(errs[bad], 20000), first_message = describe(bad_status, s, err, bad_hung);
        uint64_t index = s->index;
        if (index == UINT64_MAX)
        {
          for (int w = 0; w < workers; w++) if (alive[w]) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); alive[w] = 0; drop_scratch(pids[w]); }
          nalive = 0;
          // exhaustive enumeration is deterministic and single threaded: run it again three times
          int again = 0;
          Outcome o;
          for (int k = 0; k < 3; k++)
          {
            Outcome r = run_exhaustive_fresh(bad, workers);
            if (r.failed) { again++; o = r; }
          }
          if (again == 3)
          {
            violations = 1;
            std::string p = write_replay("exhaustive", {}, bad, workers, 0, o);
            printf("failure: %s\n", o.message.c_str());
            printf("VIOLATION property=%s replay=%s\n", vx_spec.id, p.c_str());
          }
          break;
        }
        std::vector<uint64_t> tape(s->tape, s->tape + s->tape_n);
        fprintf(stderr, "%s: case %llu failed (%s); replaying\n", vx_spec.id, (unsigned long long) index, first_message.c_str());
        for (int w = 0; w < workers; w++) if (alive[w]) kill(-pids[w], SIGSTOP);
        // 1. does the tape alone fail in a fresh process?
        int ok = 0, tries = 0, need = 3, max_tries = bad_hung ? 3 : 20;
        while (tries < max_tries && ok < need)
        {
          Outcome o = run_tape(tape, false);
          tries++;
          ok += o.failed;
          if (tries >= 8 && ok == 0) break;
        }
        std::string path;
        Outcome fin;
        if (ok >= need)
        {
          bool steady = ok == tries;
          std::vector<uint64_t> small = tape;
          unsigned attempts = 0;
          if (steady && !bad_hung)
          {
            small = shrink(tape, 40, &attempts);
            int again = 0;
            for (int k = 0; k < 3; k++) again += run_tape(small, false).failed;
            if (again < 3) small = tape;
          }
          for (int k = 0; k < 20; k++) { fin = run_tape(small, true); if (fin.failed) break; }
          if (!fin.failed) fin.message = first_message;
          path = write_replay("tape", small, 0, 0, 0, fin);
          printf("shrunk from %zu to %zu choices in %u attempts; failed %d of %d replays\n", tape.size(), small.size(), attempts, ok, tries);
        }
        else if (!bad_hung)
        {
          // 2. state carried over from earlier cases in the same process?
          int again = 0;
          for (int k = 0; k < 3; k++) { Outcome o = run_seq_fresh(bad, workers, index); if (o.failed) { again++; fin = o; } else break; }
          if (again == 3) path = write_replay("sequence", {}, bad, workers, index, fin);
        }
        if (!path.empty())
        {
          violations = 1;
          printf("failure: %s\n%s", fin.message.c_str(), fin.log.c_str());
          printf("VIOLATION property=%s replay=%s\n", vx_spec.id, path.c_str());
        }
        else
        {
          unreproduced++;
          bad_note = first_message;
          fprintf(stderr, "%s: case %llu did not fail again (%s): not reported\n%s\n", vx_spec.id, (unsigned long long) index, first_message.c_str(), err.substr(0, 3000).c_str());
        }
        for (int w = 0; w < workers; w++) if (alive[w])
        {
          if (violations) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); alive[w] = 0; nalive--; drop_scratch(pids[w]); }
          else { kill(-pids[w], SIGCONT); prog_t[w] = now_s(); }
        }
        if (violations) break;
        // carry on with the cases after the one that failed
        uint64_t next = index + workers;
        if (unreproduced < 20 && next < cases)
        {
          s->failed = 0; s->state = 0;
          pid_t pid = fork();
          if (pid == 0)
          {
            child_setup(errs[bad]);
            S = slots[bad];
            g_worker = bad;
            process_init();
            run_sequence(next, workers, cases - 1, wall_cap, false);
            fflush(nullptr);
            _exit(0);
          }
          pids[bad] = pid; alive[bad] = 1; nalive++; prog_t[bad] = now_s();
        }
        bad = -1;
        any = true;
      }
      if (!any) usleep(2000);
    }

    // merge
    uint64_t done = 0, nont = 0, edges = 0, edges_total = 0, guided = 0, corpus = 0;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
    std::string exh;
    for (auto *s : slots)
    {
      done += s->done; nont += s->nontrivial_cases;
      edges = std::max(edges, s->edges); edges_total = s->edges_total; guided += s->guided; corpus += s->corpus;
      for (uint64_t i = 0; i < s->ncounters; i++) counters[s->counters[i].name] += s->counters[i].n;
      for (uint64_t i = 0; i < s->hashes_n; i++) hashes.insert(s->hashes[i]);
      for (int i = 0; i < s->nsamples; i++) samples.push_back(s->samples[i]);
      if (s->exh_ret >= 0 && s->exh[0]) { has_exh = true; exh += (exh.empty() ? "" : "; ") + std::string(s->exh); }
    }
    mkdir((verif_dir + "/evidence").c_str(), 0755);
    FILE *f = fopen((verif_dir + "/evidence/" + vx_spec.id + ".json").c_str(), "w");
    if (!f) { perror("evidence"); return 2; }
    fprintf(f, "{\"property\": %s, \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %zu,\n  \"rule\": %s,\n",
            json(vx_spec.id).c_str(), g_thorough ? "thorough" : "quick", (unsigned long long) g_seed, (unsigned long long) done, hashes.size(), json(vx_spec.rule).c_str());
    fprintf(f, "  \"planned\": %llu, \"nontrivial_cases\": %llu, \"mutated_from_corpus\": %llu, \"corpus_tapes\": %llu, \"edges_reached\": %llu, \"edges_instrumented\": %llu, \"unreproduced_failures\": %u,\n",
            (unsigned long long) cases, (unsigned long long) nont, (unsigned long long) guided, (unsigned long long) corpus, (unsigned long long) edges, (unsigned long long) edges_total, unreproduced);
    if (has_exh) fprintf(f, "  \"enumerated\": %s,\n", json(exh).c_str());
    fprintf(f, "  \"classes\": {");
    bool firstc = true;
    for (auto &c : counters) { fprintf(f, "%s%s: %llu", firstc ? "" : ", ", json(c.first).c_str(), (unsigned long long) c.second); firstc = false; }
    fprintf(f, "},\n  \"samples\": [");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ",\n   " : "", json(samples[i]).c_str());
    fprintf(f, "]},\n \"assumptions\": [");
    if (vx_spec.assumptions)
    {
      std::string a = vx_spec.assumptions;
      size_t p = 0; bool fa = true;
      while (p <= a.size()) { size_t e = a.find('|', p); if (e == std::string::npos) e = a.size(); fprintf(f, "%s%s", fa ? "" : ", ", json(a.substr(p, e - p)).c_str()); fa = false; p = e + 1; }
    }
    fprintf(f, "],\n \"wall_s\": %.2f, \"violations\": %d}\n", now_s() - t0, violations);
    fclose(f);
    printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %llu/%llu edges, %.1f s%s\n", vx_spec.id, vx_spec.title, (unsigned long long) g_seed,
           (unsigned long long) done, hashes.size(), (unsigned long long) edges, (unsigned long long) edges_total, now_s() - t0, violations ? ", VIOLATED" : "");
    if (getenv("VX_CLASSES")) for (auto &c : counters) printf("  %-50s %llu\n", c.first.c_str(), (unsigned long long) c.second);
    fflush(stdout);
    return violations ? 1 : 0;
  }
}

extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop)
{
  vx::cov_start = start;
  vx::cov_end = stop;
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}

int main(int argc, char **argv) { return vx::main(argc, argv); }
