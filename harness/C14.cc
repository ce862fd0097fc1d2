// C14: header lookup against a naive definition.
#include "common.h"

const vx::Spec vx_spec = {
  "C14", "header lookup", 1500000, 40000000,
  "one case is a list of up to 20 fields over few names (nameless, empty, prefixes and extensions of each other, case variants, bytes differing by 32 that are not letters) in exact-size memory and "
  "several lookups by such names; non-trivial: a name matches after a field with a different name that shares its first letters, or matches twice"};

static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char) (c + 32); return s; }

static std::string name()
{
  static const std::vector<std::string> base = {"Host", "Content-Length", "Content-Type", "X", "a", "[{", "@`", "Connection", "~^", "Accept-Encoding-And-More-Than-16-Bytes"};
  std::string s = vx::pick(base);
  if (vx::chance(1, 6))
  { // of any length
    static const size_t lengths[] = {15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 255, 256, 257, 300};
    s.clear();
    for (size_t i = 0, n = vx::chance(1, 2) ? lengths[vx::below(17)] : 1 + vx::below(300); i < n; i++) s += (char) ('a' + i * i % 26);
  }
  switch (vx::weighted({4, 3, 2, 2, 2, 1}))
  {
  case 0: break;
  case 1: for (auto &c : s) if (isalpha((unsigned char) c) && vx::chance(1, 2)) c = (char) (c ^ 32); break;
  case 2: s += vx::chance(1, 2) ? "s" : "-"; break;
  case 3: s.pop_back(); break;
  case 4: { size_t i = vx::below(s.size()); s[i] = (char) (s[i] ^ (vx::chance(1, 2) ? 32 : 1)); break; }
  case 5: s.clear(); break;
  }
  if (s.find('\0') != std::string::npos) s = "Z";
  return s;
}

void vx_case()
{
  size_t n = vx::chance(1, 4) ? vx::below(20) : vx::below(6);
  std::vector<std::pair<std::string, std::string>> fs;
  std::vector<std::unique_ptr<vx::Exact>> mem;
  std::unique_ptr<http_field[], void (*)(http_field *)> f((http_field *) malloc(n * sizeof(http_field)), [](http_field *p) { free(p); });
  for (size_t i = 0; i < n; i++)
  {
    std::string k = name(), v = vx::chance(1, 6) ? "" : vx::chance(1, 2) ? "v" + std::to_string(i) : vx::bytes(vx::below(6));
    fs.push_back({k, v});
    mem.emplace_back(new vx::Exact(k));
    data dk = dat(*mem.back());
    mem.emplace_back(new vx::Exact(v));
    if (k.empty() && vx::chance(1, 2)) dk = data_null(); // a continuation line
    f[i] = http_field_construct(dk, dat(*mem.back()));
    CHECK(data_base(f[i].name) == data_base(dk) && data_size(f[i].name) == k.size() && str(f[i].value) == v, "http_field_construct changed its parts");
    LOG("field %s: %s", vx::quote(k).c_str(), vx::quote(v).c_str());
  }
  for (unsigned q = 0; q < 4; q++)
  {
    std::string k = vx::chance(1, 2) && n ? fs[vx::below(n)].first : name();
    if (!k.empty() && vx::chance(1, 10)) { char &c = k[vx::chance(1, 2) ? k.size() - 1 : vx::below(k.size())]; c = c == 'z' || c == 'Z' ? 'y' : 'z'; }
    if (vx::chance(1, 3)) for (auto &c : k) if (isalpha((unsigned char) c) && vx::chance(1, 2)) c = (char) (c ^ 32);
    vx::Exact e(k);
    data d = http_field_lookup(f.get(), n, dat(e));
    size_t hit = n, hits = 0, near = 0;
    for (size_t i = 0; i < n; i++)
    {
      if (lower(fs[i].first) == lower(k)) { if (!hits++) hit = i; }
      else if (!hits && !k.empty() && !fs[i].first.empty() && lower(fs[i].first)[0] == lower(k)[0]) near++;
    }
    LOG("lookup %s -> %s", vx::quote(k).c_str(), vx::quote(str(d)).c_str());
    if (hit == n) CHECK(data_empty(d), "lookup of %s gives %s, but there is no such field", vx::quote(k).c_str(), vx::quote(str(d)).c_str());
    else CHECK(data_size(d) == fs[hit].second.size() && (data_empty(d) || data_base(d) == data_base(f[hit].value)), "lookup of %s gives %s, expected the value of field %zu, %s", vx::quote(k).c_str(), vx::quote(str(d)).c_str(), hit, vx::quote(fs[hit].second).c_str());
    vx::count(hits == 0 ? "absent" : hits == 1 ? "present once" : "present repeatedly");
    if (hits > 1 || (hits && near)) vx::nontrivial();
  }
  // serialising a field is name, colon, blank, value, line end
  if (n)
  {
    size_t i = vx::below(n);
    std::string want = fs[i].first + ": " + fs[i].second + "\r\n";
    vx::Exact out(std::string(want.size(), '~'));
    pointer p = out.p;
    http_field_push(&p, f[i]);
    CHECK(p == out.p + want.size() && memcmp(out.p, want.data(), want.size()) == 0, "a field is written as %s", vx::quote(out.p, out.n).c_str());
  }
}
