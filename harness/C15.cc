// C15: chunked decoding under every fragmentation.
#include "common.h"
#include "picohttpparser.h"

const vx::Spec vx_spec = {
  "C15", "chunked bodies decode under every fragmentation", 600000, 20000000,
  "one case encodes a generated body with generated chunk sizes, hex forms, extensions and trailers, possibly damages the encoding, and decodes it in one call, byte by byte and in generated pieces "
  "held in exact-size memory, against a reference decoder; non-trivial: two or more chunks cut inside a size line, a line end or data, or a damaged encoding"};

// reference: decode the whole text, byte by byte
struct Ref { int state = 0; std::string body; ssize_t verdict = -2; size_t used = 0; };
static Ref reference(const std::string &s, bool trailer)
{
  enum { SIZE, EXT, DATA, END, TRAIL_HEAD, TRAIL };
  Ref r;
  unsigned __int128 left = 0;
  size_t digits = 0;
  int state = SIZE;
  for (size_t i = 0; i < s.size(); i++)
  {
    unsigned char c = (unsigned char) s[i];
    switch (state)
    {
    case SIZE:
    {
      int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
      if (v >= 0)
      {
        if (digits == 16) { r.verdict = -1; return r; }
        left = left * 16 + (unsigned) v;
        digits++;
        break;
      }
      if (!digits) { r.verdict = -1; return r; }
      digits = 0;
      state = EXT;
    }
    [[fallthrough]];
    case EXT:
      if (c != '\n') break;
      if (left == 0)
      {
        if (!trailer) { r.verdict = 0; r.used = i + 1; return r; }
        state = TRAIL_HEAD;
      }
      else state = DATA;
      break;
    case DATA:
      r.body.push_back((char) c);
      if (--left == 0) state = END;
      break;
    case END:
      if (c == '\r') break;
      if (c != '\n') { r.verdict = -1; return r; }
      state = SIZE;
      break;
    case TRAIL_HEAD:
      if (c == '\r') break;
      if (c == '\n') { r.verdict = 0; r.used = i + 1; return r; }
      state = TRAIL;
      break;
    case TRAIL:
      if (c == '\n') state = TRAIL_HEAD;
      break;
    }
  }
  r.state = state;
  return r;
}

static void decode(const std::string &s, bool trailer, const std::vector<size_t> &cuts, const Ref &want, const char *how)
{
  phr_chunked_decoder d;
  memset(&d, 0, sizeof d);
  d.consume_trailer = trailer;
  std::string body, rest;
  size_t at = 0;
  ssize_t verdict = -2;
  for (size_t i = 0; i <= cuts.size() && verdict == -2; i++)
  {
    size_t end = i < cuts.size() ? cuts[i] : s.size();
    vx::Exact e(s.substr(at, end - at));
    size_t n = e.n;
    verdict = phr_decode_chunked(&d, e.p, &n);
    CHECK(n <= e.n, "%s: %zu bytes decoded from a piece of %zu", how, n, e.n);
    if (verdict >= 0)
    {
      CHECK(n + (size_t) verdict <= e.n, "%s: %zu decoded and %zd left over in a piece of %zu", how, n, verdict, e.n);
      rest.assign(e.p + n, (size_t) verdict);
      rest += s.substr(end);
    }
    if (verdict != -1) body.append(e.p, n);
    else body.append(e.p, std::min(n, e.n));
    if (verdict == -2)
    {
      Ref p = reference(s.substr(0, end), trailer);
      CHECK(p.verdict == -2, "%s: still incomplete after %zu bytes, but it is %s", how, end, p.verdict == -1 ? "malformed" : "complete");
      CHECK(body == p.body, "%s: after %zu bytes %zu body bytes were delivered, expected %zu, or they differ", how, end, body.size(), p.body.size());
      if (p.state == 2 && !(end && s[end - 1] == '\n')) CHECK(phr_decode_chunked_is_in_data(&d) == 1, "%s: in the middle of data, but not reported so", how);
      if (p.state == 4 || p.state == 5 || p.state == 1) CHECK(phr_decode_chunked_is_in_data(&d) == 0, "%s: not in data, but reported so", how);
    }
    else
    {
      Ref p = reference(s.substr(0, at), trailer);
      CHECK(p.verdict == -2, "%s: decided only after %zu bytes", how, end);
    }
    at = end;
  }
  const char *names[] = {"incomplete", "malformed", "complete"};
  CHECK((verdict >= 0) == (want.verdict >= 0) && (verdict >= 0 || verdict == want.verdict), "%s: %s, expected %s", how, names[verdict >= 0 ? 2 : verdict + 2], names[want.verdict >= 0 ? 2 : want.verdict + 2]);
  if (verdict != -1) CHECK(body == want.body, "%s: decoded %zu bytes %s, expected %zu bytes %s", how, body.size(), vx::quote(body, 60).c_str(), want.body.size(), vx::quote(want.body, 60).c_str());
  if (verdict >= 0) CHECK(rest == s.substr(want.used), "%s: %zu bytes left over, expected %zu", how, rest.size(), s.size() - want.used);
}

void vx_case()
{
  bool trailer = vx::chance(1, 2);
  std::string s, plain;
  size_t chunks = vx::below(5), max = vx::chance(1, 600) ? 200000 : vx::chance(1, 15) ? 5000 : 20;
  for (size_t i = 0; i < chunks; i++)
  {
    size_t n = 1 + vx::size(max);
    std::string b = n < 6 ? vx::bytes(n) : vx::pattern(n);
    if (vx::chance(1, 4)) for (auto &c : b) c = "\r\n0a;"[(unsigned char) c % 5];
    char hex[40];
    snprintf(hex, sizeof hex, vx::chance(1, 2) ? "%zx" : "%zX", n);
    std::string h = hex;
    if (vx::chance(1, 5)) { size_t z = vx::below(17); h = std::string(h.size() + z > 16 ? (vx::chance(1, 3) ? z : 16 - h.size()) : z, '0') + h; }
    s += h;
    if (vx::chance(1, 4)) s += vx::chance(1, 2) ? ";x=y" : vx::pick(std::vector<std::string>{" ", ";", ";a=\"\r0\"", "\t;b", "\r"});
    s += vx::chance(1, 5) ? "\n" : "\r\n";
    s += b;
    s += vx::chance(1, 6) ? vx::pick(std::vector<std::string>{"\n", "\r\r\n"}) : "\r\n";
    plain += b;
  }
  bool ended = vx::chance(7, 8);
  if (ended)
  {
    s += std::string(1 + (vx::chance(1, 5) ? vx::below(16) : 0), '0');
    if (vx::chance(1, 5)) s += ";last";
    s += vx::chance(1, 5) ? "\n" : "\r\n";
    if (trailer)
    {
      while (vx::chance(1, 3)) s += vx::pick(std::vector<std::string>{"A: b\r\n", "x\n", "Long-Trailer-Field: value\r\n", "\rodd\r\n"});
      if (vx::chance(9, 10)) s += vx::chance(1, 5) ? "\n" : "\r\n";
    }
    if (vx::chance(1, 2)) s += vx::chance(1, 2) ? "GET / HTTP/1.1\r\n\r\n" : vx::pattern(vx::below(40));
  }
  bool damaged = vx::chance(1, 3);
  if (damaged)
  {
    size_t n = 1 + vx::below(2);
    for (size_t i = 0; i < n; i++)
    {
      size_t at = vx::below(s.size() + 1);
      switch (vx::below(4))
      {
      case 0: s.insert(at, 1, vx::pick(std::vector<char>{'\r', '\n', 'g', '0', 'F', ' ', '\0', (char) 0xff})); break;
      case 1: if (at < s.size()) s[at] = vx::pick(std::vector<char>{'\r', '\n', 'g', '0', 'f', ';', ':', '@'}); break;
      case 2: if (at < s.size()) s.erase(at, 1 + vx::below(3)); break;
      case 3: s.insert(at, "fffffffffffffffff", vx::below(18)); break;
      }
    }
  }
  LOG("trailer %d: %s", trailer, vx::quote(s, 400).c_str());
  Ref want = reference(s, trailer);
  vx::count(want.verdict == -2 ? "incomplete" : want.verdict == -1 ? "malformed" : "complete");
  if (!damaged && ended && want.verdict == 0) { CHECK(want.body == plain, "the reference decoder does not give the encoded body"); vx::count("round trip"); }
  decode(s, trailer, {}, want, "in one call");
  if (s.size() < 300)
  {
    std::vector<size_t> every;
    for (size_t i = 1; i < s.size(); i++) every.push_back(i);
    decode(s, trailer, every, want, "byte by byte");
  }
  bool inside = false;
  for (unsigned k = 0; k < 2; k++)
  {
    std::vector<size_t> cuts;
    size_t n = 1 + vx::below(5);
    for (size_t i = 0; i < n; i++)
    {
      size_t at = vx::below(s.size() + 1);
      cuts.push_back(at);
      if (at && at < s.size() && s[at - 1] != '\n') inside = true;
      if (vx::chance(1, 8)) cuts.push_back(at); // an empty piece
    }
    std::sort(cuts.begin(), cuts.end());
    decode(s, trailer, cuts, want, "in pieces");
  }
  if (damaged || (chunks >= 2 && inside)) vx::nontrivial();
}
