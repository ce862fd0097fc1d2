// C13: message serialisation, exact and read back.
#include "mem_stream.h"

const vx::Spec vx_spec = {
  "C13", "HTTP messages are serialised exactly", 40000, 2000000,
  "one case queues some output on a stream, then writes one to five generated requests and responses (part lengths from zero to thousands of bytes, bodies up to megabytes), flushes and compares the "
  "bytes the peer receives with an independent serialisation; each message is then read back by the library; non-trivial: at least two messages or queued output, one with a body"
};

struct Message { bool request; std::string a, b, c, d, body, wire; };

static std::string part(const char *alphabet, size_t max)
{
  size_t n = vx::size(max), k = strlen(alphabet);
  std::string s;
  uint64_t x = vx::below(1000);
  for (size_t i = 0; i < n; i++) s.push_back(alphabet[(x + i * 7 + i / 3) % k]);
  return s;
}
static std::string solid(const char *alphabet, size_t max) { std::string s = part(alphabet, max); return s.empty() ? std::string(1, alphabet[0]) : s; }

static void read_back(const Message &m, const std::string &rest)
{
  Fed f(m.wire + rest);
  http_field fields[16];
  size_t n = 16;
  data a, b;
  int status = 0;
  ssize_t r = m.request ? http_read_request(&f.s, &a, &b, fields, &n) : http_read_response(&f.s, &status, &a, fields, &n);
  size_t head = m.wire.size() - m.body.size();
  CHECK(r == (ssize_t) head, "reading back what was written gives %zd, expected a head of %zu bytes", r, head);
  auto field = [&](const char *name, const std::string &want) {
    size_t hits = 0;
    for (size_t i = 0; i < n; i++) if (str(fields[i].name) == name) { hits++; CHECK(str(fields[i].value) == want, "%s is read back as %s, written as %s", name, vx::quote(str(fields[i].value)).c_str(), vx::quote(want).c_str()); }
    return hits;
  };
  std::string length = std::to_string(m.body.size());
  size_t fc;
  if (m.request)
  {
    CHECK(str(a) == m.a && str(b) == m.b, "request line is read back as %s %s", vx::quote(str(a)).c_str(), vx::quote(str(b)).c_str());
    fc = field("Host", m.c);
    size_t body_fields = field("Content-Type", m.d) + field("Content-Length", length);
    CHECK(fc == 1 && body_fields == (m.body.empty() ? 0u : 2u) && n == fc + body_fields, "a request with %zu bytes of body is read back with %zu fields", m.body.size(), n);
  }
  else
  {
    std::string line = std::to_string(status) + (a.size ? " " : "") + str(a);
    CHECK(line == m.a, "status is read back as %s, written as %s", vx::quote(line).c_str(), vx::quote(m.a).c_str());
    fc = field("Server", "reactor") + field("Date", m.b) + field("Content-Length", length);
    size_t ct = field("Content-Type", m.c);
    CHECK(fc == 3 && ct == (m.c.empty() ? 0u : 1u) && n == fc + ct, "a response is read back with %zu fields", n);
  }
  data found = http_field_lookup(fields, n, data_string("content-LENGTH"));
  CHECK(str(found) == ((m.request && m.body.empty()) ? "" : length), "Content-Length is looked up as %s", vx::quote(str(found)).c_str());
  stream_consume(&f.s, (size_t) r);
  CHECK(str(stream_read(&f.s)) == m.body + rest, "after the head is consumed the input is not exactly the body");
}

void vx_case()
{
  long live0 = vx::vx_live_blocks();
  bool heavy = vx::chance(1, 60), vast = heavy && vx::chance(1, 150);
  reactor_construct();
  {
    Fed f("");
    std::string want;
    while (vx::chance(1, 3))
    {
      std::string q = vx::pattern(vx::size(vx::chance(1, 10) ? 5000 : 40));
      vx::Exact e(q);
      if (vx::chance(1, 2)) stream_write(&f.s, dat(e));
      else { void *p = stream_allocate(&f.s, q.size()); memcpy(p, q.data(), q.size()); }
      want += q;
      LOG("queue %zu bytes", q.size());
    }
    bool queued = !want.empty(), body = false;
    std::vector<Message> ms;
    size_t count = 1 + vx::below(heavy ? 2 : 5);
    size_t max = vx::chance(1, 6) ? 4000 : 40;
    for (size_t i = 0; i < count; i++)
    {
      Message m;
      m.request = vx::chance(1, 2);
      size_t n = vx::chance(1, 4) ? 0 : vx::size(heavy ? 2500000 : 3000);
      if (vast && i == 0) { n = (1 << 24) + vx::below(3000000); vx::count("a body of more than 16 megabytes"); }
      if (vx::chance(1, 5)) { static const size_t at[] = {9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000}; n = at[vx::below(10)]; }
      m.body = vx::pattern(n);
      if (m.request)
      {
        m.a = solid("GETPOSTabc", max);
        m.b = solid("/abc?&=%20.xyz", max);
        m.c = part("host.example:80", max);
        m.d = part("text/plain;q=1", max);
        m.wire = m.a + " " + m.b + " HTTP/1.1\r\nHost: " + m.c + "\r\n";
        if (!m.body.empty()) m.wire += "Content-Type: " + m.d + "\r\nContent-Length: " + std::to_string(m.body.size()) + "\r\n";
        m.wire += "\r\n" + m.body;
      }
      else
      {
        m.a = std::to_string(100 + vx::below(900));
        if (vx::chance(5, 6)) m.a += " " + solid("NotOKFoundxyz", max);
        m.b = part("Thu, 01 Jan 1970 00:00:00 GMT", max).c_str();
        if (vx::chance(1, 2)) m.b = "Thu, 01 Jan 1970 00:00:00 GMT";
        while (!m.b.empty() && m.b.front() == ' ') m.b.erase(0, 1); // blanks around a value are not part of it
        while (!m.b.empty() && m.b.back() == ' ') m.b.pop_back();
        if (vx::chance(2, 3)) m.c = part("text/plain;q=1", max);
        m.wire = "HTTP/1.1 " + m.a + "\r\nServer: reactor\r\nDate: " + m.b + "\r\n";
        if (!m.c.empty()) m.wire += "Content-Type: " + m.c + "\r\n";
        m.wire += "Content-Length: " + std::to_string(m.body.size()) + "\r\n\r\n" + m.body;
      }
      LOG("%s: parts %zu %zu %zu %zu, body %zu", m.request ? "request" : "response", m.a.size(), m.b.size(), m.c.size(), m.d.size(), m.body.size());
      vx::Exact a(m.a), b(m.b), c(m.c), d(m.d), e(m.body);
      if (m.request) http_write_request(&f.s, dat(a), dat(b), dat(c), dat(d), dat(e));
      else http_write_response(&f.s, dat(a), dat(b), c.n ? dat(c) : data_null(), dat(e));
      want += m.wire;
      if (n) body = true;
      vx::count(m.request ? "request" : "response");
      ms.push_back(m);
    }
    std::string got;
    // drain while flushing: the library sends the rest when the peer has read
    got = f.sent();
    size_t at = 0;
    while (at < got.size() && at < want.size() && got[at] == want[at]) at++;
    CHECK(got == want, "the peer received %zu bytes, expected %zu; first difference at %zu: %s, expected %s", got.size(), want.size(), at, vx::quote(got.substr(at, 60)).c_str(), vx::quote(want.substr(at, 60)).c_str());
    size_t k = vx::below(ms.size());
    read_back(ms[k], vx::chance(1, 2) ? "" : vx::pattern(vx::below(50)));
    if (body && (queued || count > 1)) vx::nontrivial();
  }
  reactor_destruct();
  CHECK(vx::vx_live_blocks() == live0, "%ld blocks leaked", vx::vx_live_blocks() - live0);
}
