// C10: request parsing against a reference grammar, with the vectorised and the portable parser.  VX_PLAIN_VARIANT
#include "ref_http.h"

const vx::Spec vx_spec = {
  "C10", "requests are parsed exactly as the grammar says", 3000000, 100000000,
  "one case is a request head made of generated parts (lengths concentrated around multiples of the 16-byte vector width), usually followed by other bytes, possibly damaged by up to two edits or "
  "truncated, parsed with a generated field limit by both builds of the parser; in addition every byte value is tried at every position of a set of heads, and every prefix of each; "
  "non-trivial: the head is complete with at least one field, or invalid after its first line"};

extern "C" ssize_t plain_http_read_request_data(data, data *, data *, http_field *, size_t *);
typedef ssize_t reader(data, data *, data *, http_field *, size_t *);

static void slice(const char *what, const char *build, data d, const char *base, const ref::Slice &w)
{
  if (w.null) { CHECK(data_empty(d), "%s: %s is not empty", build, what); return; }
  CHECK(data_size(d) == w.len && (const char *) data_base(d) == base + w.off, "%s: %s is [%td,+%zu), expected [%zu,+%zu)", build, what, (const char *) data_base(d) - base, data_size(d), w.off, w.len);
}

static void compare(const char *build, reader *read, const vx::Exact &in, const ref::Result &want, size_t limit)
{
  std::unique_ptr<http_field[], void (*)(http_field *)> fields((http_field *) malloc(limit * sizeof(http_field)), [](http_field *f) { free(f); });
  data method = data_null(), target = data_null();
  size_t count = limit;
  ssize_t n = read(dat(in), &method, &target, fields.get(), &count);
  auto name = [](ssize_t v) { return v == -2 ? "incomplete" : v == -1 ? "invalid" : "complete"; };
  CHECK(n == want.verdict, "%s build: verdict %s (%zd), expected %s (%d) for %s with room for %zu fields", build, name(n), n, name(want.verdict), want.verdict, vx::quote(in.p, in.n, 400).c_str(), limit);
  if (n < 0) return;
  slice("method", build, method, in.p, want.method);
  slice("target", build, target, in.p, want.target);
  CHECK(count == want.fields.size(), "%s build: %zu fields, expected %zu", build, count, want.fields.size());
  for (size_t i = 0; i < count; i++)
  {
    slice("field name", build, fields[i].name, in.p, want.fields[i].name);
    slice("field value", build, fields[i].value, in.p, want.fields[i].value);
  }
}

static ref::Result both(const std::string &s, size_t limit)
{
  vx::Exact in(s);
  ref::Result want = ref::request(s, limit);
  compare("vectorised", http_read_request_data, in, want, limit);
  compare("portable", plain_http_read_request_data, in, want, limit);
  CHECK(memcmp(in.p, s.data(), s.size()) == 0, "parsing changed its input");
  return want;
}

void vx_case()
{
  size_t limit = vx::chance(1, 1500) ? 30 + vx::below(300) : vx::chance(1, 2) ? 16 : vx::below(6);
  if (limit > 20) vx::count("room for more than 30 fields");
  std::string s = gen::request(limit);
  size_t head = s.size();
  switch (vx::weighted({3, 2, 2}))
  {
  case 0: break;
  case 1: s += vx::chance(1, 2) ? gen::request(3) : vx::pattern(vx::size(60)); break;
  case 2: s += std::string(vx::below(40), vx::pick(std::vector<char>{' ', '\r', '\n', 'a', '\0'})); break;
  }
  unsigned how = vx::weighted({4, 5, 2});
  if (how == 1) { std::string h = s.substr(0, head); gen::damage(h); s = h + s.substr(head); }
  if (how == 2) s.resize(vx::below(std::min(s.size(), head) + 1));
  LOG("limit %zu: %s", limit, vx::quote(s, 1000).c_str());
  ref::Result r = both(s, limit);
  vx::count(r.verdict == -2 ? "incomplete" : r.verdict == -1 ? "invalid" : "complete");
  if (how == 0 && r.verdict >= 0) vx::count("complete, undamaged");
  if (r.verdict == -1 && r.fields.size() >= limit) vx::count("too many fields");
  if ((r.verdict >= 0 && !r.fields.empty()) || (r.verdict == -1 && r.minor >= 0)) vx::nontrivial();
}

extern "C" int vx_exhaustive(int worker, int workers, int, char *summary, size_t size)
{
  static const char *heads[] = {
    "GET / HTTP/1.0\r\nA: b\r\n\r\n",
    "\r\nPOST /a-longer-target-than-16 HTTP/1.1\r\nHost: x\r\nContent-Type:  text/plain;  q=1 \t\r\n folded value here\r\nE:\r\n\r\n",
    "\nABCDEFGHIJKLMNOP  /0123456789abcdef0123456789abcdef   HTTP/1.9\nAccept-Encoding-Very-Long-Name-Of-A-Field: 0123456789abcdef0123456789abcdef\nB:\t\t1\n\n",
    "A *   HTTP/1.1\r\n!#$%&'*+-.^_`|~: \x80\xff\r\n\r\nGET / HTTP/1.1\r\n\r\n"};
  uint64_t n = 0, job = 0;
  for (const char *h : heads)
  {
    std::string base = h;
    for (size_t limit = 0; limit <= 4; limit++)
    {
      for (size_t i = 0; i <= base.size(); i++)
        if (job++ % workers == (uint64_t) worker) { both(base.substr(0, i), limit); n++; }
      if (limit == 1 || limit == 2) continue;
      for (size_t i = 0; i < base.size(); i++)
        for (int c = 0; c < 256; c++)
          if (job++ % workers == (uint64_t) worker)
          {
            std::string s = base;
            s[i] = (char) c;
            both(s, limit);
            if (limit == 3) { s = base; s.insert(i, 1, (char) c); both(s, limit); }
            n++;
          }
    }
  }
  if (worker == 0) snprintf(summary, size, "every prefix, and every byte value substituted and inserted at every position, of 4 heads, for field limits 0..4; inputs per worker: %llu", (unsigned long long) n);
  else snprintf(summary, size, "%llu", (unsigned long long) n);
  return (int) n;
}
