// C08: decimal formatting of unsigned 32-bit integers. Enumerates all 2^32 values (thorough) or a dense part (quick).
#include "common.h"

const vx::Spec vx_spec = {
  "C08", "decimal formatting", 400000, 4000000,
  "enumeration: contiguous ranges compared with a decimal counter (thorough: all 2^32 values; quick: one eighth of the space, rotating with the seed, plus every value within 20000 of "
  "a power of ten or two); cases: one drawn value printed into exact-size memory at a drawn alignment; non-trivial: at least two digits"};

static void one(uint32_t n, const char *dec, size_t len)
{
  char b[40];
  size_t l = utility_u32_len(n);
  if (l != len) vx::fail("utility_u32_len(%u) = %zu", n, l);
  memset(b, '#', sizeof b);
  utility_u32_sprint(n, b + 16 + len);
  if (memcmp(b + 16, dec, len) || memcmp(b, "################", 16) || memcmp(b + 16 + len, "##########", 10)) vx::fail("utility_u32_sprint(%u) gives %s", n, vx::quote(b, 40).c_str());
  memset(b, '#', sizeof b);
  utility_u32_toa(n, b + 16);
  if (memcmp(b + 16, dec, len) || b[16 + len] || memcmp(b, "################", 16) || memcmp(b + 17 + len, "##########", 10)) vx::fail("utility_u32_toa(%u) gives %s", n, vx::quote(b, 40).c_str());
}

static uint64_t enumerate(uint64_t from, uint64_t to)
{
  char dec[24];
  size_t len = (size_t) snprintf(dec, sizeof dec, "%llu", (unsigned long long) from);
  for (uint64_t n = from; n < to; n++)
  {
    one((uint32_t) n, dec, len);
    size_t i = len;
    while (i > 0 && dec[i - 1] == '9') dec[--i] = '0';
    if (i) dec[i - 1]++;
    else { memmove(dec + 1, dec, len); dec[0] = '1'; len++; }
  }
  return to - from;
}

extern "C" int vx_exhaustive(int worker, int workers, int thorough, char *summary, size_t n)
{
  uint64_t total = 0, step = (1ULL << 32) / workers, part = 8;
  if (thorough) total += enumerate(worker * step, worker == workers - 1 ? 1ULL << 32 : (worker + 1) * step);
  else
  {
    uint64_t b = worker * step + (vx::seed() % part) * (step / part);
    total += enumerate(b, b + step / part);
  }
  std::vector<uint64_t> marks;
  for (uint64_t p = 1; p < 1ULL << 32; p *= 10) marks.push_back(p);
  for (uint64_t p = 1; p <= 1ULL << 32; p *= 2) marks.push_back(p);
  for (size_t i = worker; i < marks.size(); i += workers)
    total += enumerate(marks[i] < 20000 ? 0 : marks[i] - 20000, std::min<uint64_t>(marks[i] + 20000, 1ULL << 32));
  vx::count("values enumerated", total);
  snprintf(summary, n, "worker %d enumerated %llu values", worker, (unsigned long long) total);
  return 0;
}

void vx_case()
{
  uint32_t v = (uint32_t) vx::bits(32);
  char dec[16];
  size_t len = (size_t) snprintf(dec, sizeof dec, "%u", v), pad = vx::below(9);
  LOG("%u at offset %zu", v, pad);
  one(v, dec, len);
  vx::Exact e(std::string(pad + len, '.'));
  utility_u32_sprint(v, e.p + pad + len);
  CHECK(std::string(e.p, e.n) == std::string(pad, '.') + dec, "sprint(%u) into exact memory gives %s", v, vx::quote(e.p, e.n).c_str());
  vx::Exact t(std::string(pad + len + 1, '.'));
  utility_u32_toa(v, t.p + pad);
  CHECK(std::string(t.p, t.n) == std::string(pad, '.') + dec + std::string(1, 0), "toa(%u) into exact memory gives %s", v, vx::quote(t.p, t.n).c_str());
  if (len > 1) vx::nontrivial();
  vx::count(("digits " + std::to_string(len)).c_str());
}
