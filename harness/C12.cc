// C12: parsing stays inside its input and is stable as the input grows.  VX_PLAIN_VARIANT
#include "ref_http.h"
#include "picohttpparser.h"

const vx::Spec vx_spec = {
  "C12", "parsing stays in bounds and is stable as input grows", 250000, 8000000,
  "one case is a request, response or header block (generated, usually with bytes after it, often damaged) that arrives in generated pieces; after each piece the exact-size prefix is parsed by "
  "both builds, afresh and told how much was seen before; non-trivial: at least three pieces, of which one ends inside a line end, a run of blanks or a name"};

extern "C"
{
  int plain_phr_parse_request(const char *, size_t, const char **, size_t *, const char **, size_t *, int *, struct phr_header *, size_t *, size_t);
  int plain_phr_parse_response(const char *, size_t, int *, int *, const char **, size_t *, struct phr_header *, size_t *, size_t);
  int plain_phr_parse_headers(const char *, size_t, struct phr_header *, size_t *, size_t);
}

enum Kind { REQUEST, RESPONSE, HEADERS };
static const char *kinds[] = {"request", "response", "header block"};

// everything reported, as offsets
struct Out
{
  int verdict = 0;
  std::vector<std::pair<long, size_t>> slices;
  bool operator==(const Out &o) const { return verdict == o.verdict && slices == o.slices; }
};

static Out parse(Kind kind, bool plain, const vx::Exact &in, size_t limit, size_t last)
{
  std::unique_ptr<phr_header[], void (*)(phr_header *)> fields((phr_header *) malloc(limit * sizeof(phr_header)), [](phr_header *f) { free(f); });
  const char *a = nullptr, *b = nullptr;
  size_t al = 0, bl = 0, count = limit;
  int minor, status;
  Out o;
  switch (kind)
  {
  case REQUEST: o.verdict = (plain ? plain_phr_parse_request : phr_parse_request)(in.p, in.n, &a, &al, &b, &bl, &minor, fields.get(), &count, last); break;
  case RESPONSE: o.verdict = (plain ? plain_phr_parse_response : phr_parse_response)(in.p, in.n, &minor, &status, &a, &al, fields.get(), &count, last); break;
  case HEADERS: o.verdict = (plain ? plain_phr_parse_headers : phr_parse_headers)(in.p, in.n, fields.get(), &count, last); break;
  }
  CHECK(o.verdict == -1 || o.verdict == -2 || (o.verdict >= 0 && (size_t) o.verdict <= in.n), "verdict %d for %zu bytes", o.verdict, in.n);
  CHECK(count <= limit, "%zu fields reported with room for %zu", count, limit);
  auto add = [&](const char *p, size_t n) {
    if (p == nullptr) { CHECK(n == 0, "slice of %zu bytes at a null pointer", n); o.slices.push_back({-1, 0}); return; }
    CHECK(p >= in.p && p <= in.p + in.n && n <= (size_t) (in.p + in.n - p), "slice [%td,+%zu) is outside the %zu bytes of input", p - in.p, n, in.n);
    if (o.verdict >= 0) CHECK(p + n <= in.p + o.verdict, "slice [%td,+%zu) is outside the head of %d bytes", p - in.p, n, o.verdict);
    o.slices.push_back({p - in.p, n});
  };
  if (kind == REQUEST) { add(a, al); add(b, bl); o.slices.push_back({minor, 0}); }
  if (kind == RESPONSE) { add(a, al); o.slices.push_back({minor, (size_t) status}); }
  for (size_t i = 0; i < count; i++) { add(fields[i].name, fields[i].name_len); add(fields[i].value, fields[i].value_len); }
  if (o.verdict < 0) o.slices.clear(); // partial results carry no meaning
  return o;
}

void vx_case()
{
  Kind kind = (Kind) vx::below(3);
  size_t limit = vx::chance(1, 2) ? 16 : vx::below(5);
  std::string s = kind == REQUEST ? gen::request(limit) : kind == RESPONSE ? gen::response(limit) : gen::fields(vx::below(5));
  if (vx::chance(1, 2)) gen::damage(s);
  if (vx::chance(1, 2)) s += vx::chance(1, 2) ? gen::fields(2) : vx::pattern(vx::size(40));
  LOG("%s, limit %zu: %s", kinds[kind], limit, vx::quote(s, 1000).c_str());
  // where the pieces end
  std::vector<size_t> cuts;
  unsigned mode = vx::below(3);
  if (mode == 0 && s.size() < 400) for (size_t i = 0; i < s.size(); i++) cuts.push_back(i);
  else if (mode == 1) { for (size_t i = 0; i < s.size() && cuts.size() < 200; i++) if (strchr("\r\n :", s[i]) && vx::chance(1, 2)) { cuts.push_back(i); if (vx::chance(1, 2)) cuts.push_back(i + 1); } }
  else for (size_t i = 0, n = vx::below(6); i < n; i++) cuts.push_back(vx::below(s.size() + 1));
  cuts.push_back(s.size());
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  Out fixed;
  bool decided = false, told_decided = false, told_invalid = false;
  size_t last = 0;
  bool inside = false;
  for (size_t cut : cuts)
  {
    std::string part = s.substr(0, cut);
    vx::Exact in(part);
    Out o[2];
    for (int plain = 0; plain < 2; plain++)
    {
      o[plain] = parse(kind, plain, in, limit, 0);
      CHECK(memcmp(in.p, part.data(), part.size()) == 0, "parsing changed its input");
      if (decided) CHECK(o[plain] == fixed, "%s build: at %zu bytes the verdict is %d, it was %d with fewer bytes, or other slices", plain ? "portable" : "vectorised", cut, o[plain].verdict, fixed.verdict);
      // told how much was seen when the verdict was still open
      if (!told_decided)
      {
        Out t = parse(kind, plain, in, limit, last);
        if (o[plain].verdict >= 0 || t.verdict >= 0)
          CHECK(t == o[plain], "%s build: told that %zu of %zu bytes were seen before the verdict is %d, afresh it is %d, or the slices differ", plain ? "portable" : "vectorised", last, cut, t.verdict, o[plain].verdict);
        // an invalid head may be recognised earlier or later when the completeness check goes first, but what it calls invalid never completes
        if (t.verdict == -1) told_invalid = true;
        if (plain) told_decided = t.verdict != -2;
      }
      CHECK(!told_invalid || o[plain].verdict < 0, "a head called invalid when told how much was seen before is complete afresh at %zu bytes", cut);
    }
    CHECK(o[0] == o[1], "the vectorised and the portable parser differ at %zu bytes: %d and %d", cut, o[0].verdict, o[1].verdict);
    if (!decided && o[0].verdict != -2) { decided = true; fixed = o[0]; }
    if (o[0].verdict == -2 && cut && cut < s.size() && strchr("\r\n :-", s[cut])) inside = true;
    last = cut;
  }
  // once complete, what follows does not matter
  if (decided && fixed.verdict > 0)
  {
    std::string t = s.substr(0, (size_t) fixed.verdict);
    if (vx::chance(1, 2)) t += vx::bytes(vx::below(20));
    vx::Exact in(t);
    CHECK(parse(kind, false, in, limit, 0) == fixed, "the result changes with the bytes that follow the head");
  }
  if (decided && fixed.verdict == -1 && vx::chance(1, 4))
  {
    vx::Exact in(s + "\r\n\r\n" + vx::bytes(vx::below(6)));
    CHECK(parse(kind, false, in, limit, 0).verdict == -1, "an invalid head becomes acceptable when more bytes follow");
  }
  vx::count(kinds[kind]);
  vx::count(!decided ? "stays incomplete" : fixed.verdict == -1 ? "becomes invalid" : "becomes complete");
  if (cuts.size() >= 3 && inside) vx::nontrivial();
}
