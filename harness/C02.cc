// C02: a vector against an ideal sequence of objects, with release accounting.
#include "common.h"

const vx::Spec vx_spec = {
  "C02", "vector is a sequence and releases once", 80000, 4000000,
  "one case is a history of vector operations on objects of one size (1..64 bytes; one vector in 8000 starts with about 65536 objects), compared with std::vector<std::string> after every operation, released objects "
  "compared as a multiset of contents; non-trivial: at least one operation inside the sequence and one released object"};

static size_t osize;
static std::vector<std::string> released;
static void release(void *o) { released.push_back(std::string((char *) o, osize)); }

static uint64_t counter;
static std::string object()
{
  std::string s(osize, 0);
  uint64_t id = ++counter * 0x9e3779b97f4a7c15ULL;
  for (size_t i = 0; i < osize; i++) s[i] = (char) (i < 8 ? id >> (8 * (7 - i)) : id * (i + 1) >> 32);
  return s;
}

void vx_case()
{
  long live0 = vx::vx_live_blocks();
  vector v;
  std::vector<std::string> m, expect;
  counter = 0;
  osize = vx::below(3) == 0 ? 1 + vx::below(64) : std::vector<size_t>{8, 1, 4, 16, 3, 24}[vx::below(6)];
  LOG("objects of %zu bytes", osize);
  memset((void *) &v, 0xbe, sizeof v); vector_construct(&v, osize);
  size_t inner = 0, nreleased = 0, maxn = vx::below(20) == 0 ? 2000 : 20;
  if (vx::chance(1, 8000))
  {
    // more objects, and more bytes, than fit 16 bits
    std::string o = object(); vx::Exact e(o);
    size_t n = 65530 + vx::below(24);
    LOG("insert_fill(0, %zu objects)", n);
    vector_insert_fill(&v, 0, n, e.p);
    m.insert(m.begin(), n, o);
    for (size_t i = 0; i < 40; i++) { std::string x = object(); size_t p = vx::below(m.size()); memcpy(vector_at(&v, p), x.data(), osize); m[p] = x; }
    vx::count("more than 65529 objects");
  }
  while (vx::more(m.size() > 60000 ? 12 : 30))
  {
    released.clear();
    expect.clear();
    vector_release *rel = vx::chance(1, 5) ? nullptr : release;
    bool shrunk = false;
    size_t reserved = 0;
    switch (vx::weighted({6, 5, 4, 4, 4, 3, 4, 1, 1, 1, 1}))
    {
    case 0: { std::string o = object(); vx::Exact e(o); LOG("push_back"); vector_push_back(&v, e.p); m.push_back(o); vx::count("push_back"); break; }
    case 1:
    {
      size_t p = vx::below(m.size() + 1);
      std::string o = object(); vx::Exact e(o);
      LOG("insert(%zu)", p);
      vector_insert(&v, p, e.p);
      if (p > 0 && p < m.size()) inner++;
      m.insert(m.begin() + p, o);
      vx::count("insert");
      break;
    }
    case 2:
    {
      size_t p = vx::below(m.size() + 1), n = vx::size(maxn);
      std::string all;
      std::vector<std::string> os;
      for (size_t i = 0; i < n; i++) { os.push_back(object()); all += os.back(); }
      vx::Exact e(all);
      LOG("insert_range(%zu, %zu objects)", p, n);
      vector_insert_range(&v, p, e.p, e.p + e.n);
      if (p > 0 && p < m.size()) inner++;
      m.insert(m.begin() + p, os.begin(), os.end());
      vx::count(n ? "insert_range" : "insert_range empty");
      break;
    }
    case 3:
    {
      size_t p = vx::below(m.size() + 1), n = vx::size(maxn);
      std::string o = object(); vx::Exact e(o);
      LOG("insert_fill(%zu, %zu objects)", p, n);
      vector_insert_fill(&v, p, n, e.p);
      if (p > 0 && p < m.size()) inner++;
      m.insert(m.begin() + p, n, o);
      vx::count(n ? "insert_fill" : "insert_fill empty");
      break;
    }
    case 4:
    {
      if (m.empty()) break;
      size_t p = vx::below(m.size());
      LOG("erase(%zu)", p);
      vector_erase(&v, p, rel);
      expect.push_back(m[p]);
      if (p > 0 && p + 1 < m.size()) inner++;
      m.erase(m.begin() + p);
      vx::count("erase");
      break;
    }
    case 5:
    {
      size_t a = vx::below(m.size() + 1), b = a + vx::below(m.size() - a + 1);
      if (m.size() > 60000) { a = vx::below(8); b = m.size() - vx::below(8); }
      LOG("erase_range(%zu, %zu)", a, b);
      vector_erase_range(&v, a, b, rel);
      expect.assign(m.begin() + a, m.begin() + b);
      if (a > 0 && b < m.size() && b > a) inner++;
      m.erase(m.begin() + a, m.begin() + b);
      vx::count(a == b ? "erase_range empty" : "erase_range");
      break;
    }
    case 6:
      if (m.empty()) break;
      LOG("pop_back");
      vector_pop_back(&v, rel);
      expect.push_back(m.back());
      m.pop_back();
      vx::count("pop_back");
      break;
    case 7:
      reserved = vx::size(maxn * 4);
      LOG("reserve(%zu)", reserved);
      vector_reserve(&v, reserved);
      vx::count("reserve");
      break;
    case 8:
      LOG("shrink_to_fit");
      vector_shrink_to_fit(&v);
      shrunk = true;
      vx::count("shrink");
      break;
    case 9:
      LOG("clear");
      expect = m;
      vector_clear(&v, rel);
      m.clear();
      CHECK(vx::vx_live_blocks() == live0, "clear leaves memory allocated");
      vx::count("clear");
      break;
    case 10:
      LOG("destruct, construct");
      expect = m;
      vector_destruct(&v, rel);
      CHECK(vx::vx_live_blocks() == live0, "destruct leaves memory allocated");
      memset((void *) &v, 0xbe, sizeof v); vector_construct(&v, osize);
      m.clear();
      vx::count("reconstruct");
      break;
    }
    if (!rel) expect.clear();
    nreleased += expect.size();
    std::sort(expect.begin(), expect.end());
    std::sort(released.begin(), released.end());
    CHECK(expect == released, "released %zu objects, expected %zu, or their contents differ", released.size(), expect.size());
    CHECK(vector_size(&v) == m.size(), "size %zu, expected %zu", vector_size(&v), m.size());
    CHECK(!vector_empty(&v) == !m.empty(), "empty() is wrong at size %zu", m.size());
    CHECK(vector_capacity(&v) >= m.size() && vector_capacity(&v) >= reserved, "capacity %zu at size %zu, reserved %zu", vector_capacity(&v), m.size(), reserved);
    if (shrunk) CHECK(vector_capacity(&v) == m.size(), "capacity %zu after shrinking to %zu", vector_capacity(&v), m.size());
    for (size_t i = 0; i < m.size(); i++)
      CHECK(memcmp(vector_at(&v, i), m[i].data(), osize) == 0, "object %zu of %zu is %s, expected %s", i, m.size(), vx::quote(vector_at(&v, i), osize).c_str(), vx::quote(m[i]).c_str());
    if (m.size())
    {
      CHECK(vector_front(&v) == vector_at(&v, 0) && vector_data(&v) == vector_at(&v, 0), "front or data is not the first object");
      CHECK(vector_back(&v) == vector_at(&v, m.size() - 1), "back is not the last object");
      size_t slack = vector_capacity(&v) - m.size();
      if (slack) memset((char *) vector_data(&v) + m.size() * osize, 0x5a, slack * osize);
    }
  }
  released.clear();
  vector_destruct(&v, release);
  std::sort(m.begin(), m.end());
  std::sort(released.begin(), released.end());
  CHECK(m == released, "destruct released %zu objects, expected %zu", released.size(), m.size());
  CHECK(vx::vx_live_blocks() == live0, "destruct leaves memory allocated");
  if (inner && nreleased) vx::nontrivial();
}
