// C11: response parsing against a reference grammar.  VX_PLAIN_VARIANT
#include "ref_http.h"
#include "mem_stream.h"
#include "picohttpparser.h"

const vx::Spec vx_spec = {
  "C11", "responses are parsed exactly as the grammar says", 3000000, 100000000,
  "one case is a response head made of generated parts (version, blanks, status, reason, fields; lengths concentrated around multiples of 16), usually followed by other bytes, possibly damaged or "
  "truncated, parsed with a generated field limit by both builds of the parser, and for one case in forty also from the input of a stream; in addition every byte value is tried at every position "
  "of a set of heads, and every prefix of each; non-trivial: the head is complete with at least one field or a reason, or invalid after the status code"};

extern "C" int plain_phr_parse_response(const char *, size_t, int *, int *, const char **, size_t *, struct phr_header *, size_t *, size_t);

static void slice(const char *what, const char *build, const char *p, size_t n, const char *base, const ref::Slice &w)
{
  if (w.null) { CHECK(n == 0, "%s: %s is not empty", build, what); return; }
  CHECK(n == w.len && (p == base + w.off || n == 0), "%s: %s is [%td,+%zu), expected [%zu,+%zu)", build, what, p - base, n, w.off, w.len);
}
static const char *vname(ssize_t v) { return v == -2 ? "incomplete" : v == -1 ? "invalid" : "complete"; }

static void compare(const char *build, decltype(phr_parse_response) *parse, const vx::Exact &in, const ref::Result &want, size_t limit)
{
  std::unique_ptr<phr_header[], void (*)(phr_header *)> fields((phr_header *) malloc(limit * sizeof(phr_header)), [](phr_header *f) { free(f); });
  int minor, status;
  const char *msg;
  size_t len, count = limit;
  int n = parse(in.p, in.n, &minor, &status, &msg, &len, fields.get(), &count, 0);
  CHECK(n == want.verdict, "%s build: verdict %s (%d), expected %s (%d) for %s with room for %zu fields", build, vname(n), n, vname(want.verdict), want.verdict, vx::quote(in.p, in.n, 400).c_str(), limit);
  if (n < 0) return;
  CHECK(minor == want.minor && status == want.status, "%s build: version 1.%d status %d, expected 1.%d %d", build, minor, status, want.minor, want.status);
  slice("reason", build, msg, len, in.p, want.reason);
  CHECK(count == want.fields.size(), "%s build: %zu fields, expected %zu", build, count, want.fields.size());
  for (size_t i = 0; i < count; i++)
  {
    slice("field name", build, fields[i].name, fields[i].name_len, in.p, want.fields[i].name);
    slice("field value", build, fields[i].value, fields[i].value_len, in.p, want.fields[i].value);
  }
}
static ref::Result both(const std::string &s, size_t limit)
{
  vx::Exact in(s);
  ref::Result want = ref::response(s, limit);
  compare("vectorised", phr_parse_response, in, want, limit);
  compare("portable", plain_phr_parse_response, in, want, limit);
  CHECK(memcmp(in.p, s.data(), s.size()) == 0, "parsing changed its input");
  return want;
}
static void through_stream(const std::string &s, size_t limit, const ref::Result &want)
{
  reactor_construct();
  {
    Fed f(s);
    std::unique_ptr<http_field[], void (*)(http_field *)> fields((http_field *) malloc(limit * sizeof(http_field)), [](http_field *x) { free(x); });
    int status = -5;
    data reason = data_null();
    size_t count = limit;
    ssize_t n = http_read_response(&f.s, &status, &reason, fields.get(), &count);
    const char *base = (const char *) data_base(stream_read(&f.s));
    CHECK(n == want.verdict, "from a stream: verdict %s (%zd), expected %s (%d)", vname(n), n, vname(want.verdict), want.verdict);
    if (n >= 0)
    {
      CHECK(status == want.status, "from a stream: status %d, expected %d", status, want.status);
      slice("reason", "stream", (const char *) reason.base, reason.size, base, want.reason);
      CHECK(count == want.fields.size(), "from a stream: %zu fields, expected %zu", count, want.fields.size());
      for (size_t i = 0; i < count; i++)
      {
        slice("field name", "stream", (const char *) fields[i].name.base, fields[i].name.size, base, want.fields[i].name);
        slice("field value", "stream", (const char *) fields[i].value.base, fields[i].value.size, base, want.fields[i].value);
      }
    }
    CHECK(str(stream_read(&f.s)) == s, "reading a response changed the stream's input");
  }
  reactor_destruct();
}

void vx_case()
{
  size_t limit = vx::chance(1, 1500) ? 30 + vx::below(300) : vx::chance(1, 2) ? 16 : vx::below(6);
  if (limit > 20) vx::count("room for more than 30 fields");
  std::string s = gen::response(limit);
  size_t head = s.size();
  switch (vx::weighted({3, 2, 2}))
  {
  case 0: break;
  case 1: s += vx::chance(1, 2) ? gen::response(3) : vx::pattern(vx::size(60)); break;
  case 2: s += std::string(vx::below(40), vx::pick(std::vector<char>{' ', '\r', '\n', 'a', '\0'})); break;
  }
  unsigned how = vx::weighted({4, 5, 2});
  if (how == 1) { std::string h = s.substr(0, head); gen::damage(h); s = h + s.substr(head); }
  if (how == 2) s.resize(vx::below(std::min(s.size(), head) + 1));
  LOG("limit %zu: %s", limit, vx::quote(s, 1000).c_str());
  ref::Result r = both(s, limit);
  vx::count(r.verdict == -2 ? "incomplete" : r.verdict == -1 ? "invalid" : "complete");
  if (vx::chance(1, 40)) { through_stream(s, limit, r); vx::count("through a stream"); }
  if ((r.verdict >= 0 && (!r.fields.empty() || r.reason.len)) || (r.verdict == -1 && r.status >= 100)) vx::nontrivial();
}

extern "C" int vx_exhaustive(int worker, int workers, int, char *summary, size_t size)
{
  static const char *heads[] = {
    "HTTP/1.0 200 OK\r\nA: b\r\n\r\n",
    "HTTP/1.1   404   Not found at all, sorry\r\nHost: x\r\nContent-Type:  text/plain;  q=1 \t\r\n folded value here\r\nE:\r\n\r\n",
    "HTTP/1.9 000\nAccept-Encoding-Very-Long-Name-Of-A-Field: 0123456789abcdef0123456789abcdef\nB:\t\t1\n\n",
    "HTTP/1.1 999    \r\n!#$%&'*+-.^_`|~: \x80\xff\r\n\r\nHTTP/1.1 200 OK\r\n\r\n"};
  uint64_t n = 0, job = 0;
  for (const char *h : heads)
  {
    std::string base = h;
    for (size_t limit = 0; limit <= 4; limit++)
    {
      for (size_t i = 0; i <= base.size(); i++)
        if (job++ % workers == (uint64_t) worker) { both(base.substr(0, i), limit); n++; }
      if (limit == 1 || limit == 2) continue;
      for (size_t i = 0; i < base.size(); i++)
        for (int c = 0; c < 256; c++)
          if (job++ % workers == (uint64_t) worker)
          {
            std::string s = base;
            s[i] = (char) c;
            both(s, limit);
            if (limit == 3) { s = base; s.insert(i, 1, (char) c); both(s, limit); }
            n++;
          }
    }
  }
  if (worker == 0) snprintf(summary, size, "every prefix, and every byte value substituted and inserted at every position, of 4 heads, for field limits 0..4; inputs per worker: %llu", (unsigned long long) n);
  else snprintf(summary, size, "%llu", (unsigned long long) n);
  return (int) n;
}
