// C01: a buffer against an ideal byte sequence.
#include "common.h"

const vx::Spec vx_spec = {
  "C01", "buffer is a byte sequence", 400000, 12000000,
  "one case is a history of buffer operations (insert, fill, erase, resize, reserve, compact, clear, reconstruct) on one buffer, compared with std::string after "
  "every operation; non-trivial: it has an insert, fill or erase strictly inside the content and at least one reallocation"};

static size_t scale()
{
  switch (vx::weighted({10, 6, 2, 1}))
  {
  case 0: return 40;
  case 1: return 600;
  case 2: return 20000;
  default: return vx::chance(1, 8) ? 3000000 : 150000;
  }
}

void vx_case()
{
  long live0 = vx::vx_live_blocks();
  buffer b;
  std::string m;
  memset((void *) &b, 0xbe, sizeof b); buffer_construct(&b);
  CHECK(buffer_size(&b) == 0, "new buffer has size %zu", buffer_size(&b));
  size_t max = scale(), mean = max > 100000 ? 8 : 30, inner = 0, reallocs = 0, cap = 0;
  while (vx::more(mean))
  {
    size_t reserved = 0;
    bool compacted = false;
    switch (vx::weighted({8, 5, 6, 3, 3, 2, 1, 1}))
    {
    case 0:
    {
      size_t pos = vx::below(4) == 0 ? m.size() : vx::below(m.size() + 1), n = vx::size(max);
      std::string s = n <= 8 ? vx::bytes(n) : vx::pattern(n);
      vx::Exact e(s);
      LOG("insert(%zu, %s)", pos, vx::quote(s, 40).c_str());
      buffer_insert(&b, pos, e.p, e.n);
      if (pos > 0 && pos < m.size() && n) inner++;
      m.insert(pos, s);
      vx::count(n == 0 ? "insert empty" : pos == m.size() - n ? "insert at end" : pos == 0 ? "insert at start" : "insert inside");
      break;
    }
    case 1:
    {
      size_t pos = vx::below(m.size() + 1), sz = vx::size(24), cnt = vx::size(max > 1000 ? 200 : 20);
      std::string s = vx::bytes(sz);
      vx::Exact e(s);
      LOG("insert_fill(%zu, %zu x %s)", pos, cnt, vx::quote(s).c_str());
      buffer_insert_fill(&b, pos, cnt, e.p, e.n);
      if (pos > 0 && pos < m.size() && sz * cnt) inner++;
      std::string f;
      for (size_t i = 0; i < cnt; i++) f += s;
      m.insert(pos, f);
      vx::count(cnt * sz == 0 ? "fill empty" : "fill");
      break;
    }
    case 2:
    {
      size_t pos = vx::below(m.size() + 1), n = vx::below(2) ? vx::below(m.size() - pos + 1) : std::min<size_t>(vx::size(16), m.size() - pos);
      LOG("erase(%zu, %zu)", pos, n);
      buffer_erase(&b, pos, n);
      if (pos > 0 && pos + n < m.size() && n) inner++;
      m.erase(pos, n);
      vx::count(n == 0 ? "erase nothing" : m.empty() ? "erase everything" : "erase");
      break;
    }
    case 3:
    {
      size_t n = vx::size(max), old = m.size();
      LOG("resize(%zu)", n);
      buffer_resize(&b, n);
      CHECK(buffer_size(&b) == n, "resize(%zu) gives size %zu", n, buffer_size(&b));
      m.resize(n, 'r');
      if (n > old) memset((char *) buffer_data(&b) + old, 'r', n - old); // new bytes are the caller's to set
      vx::count(n > old ? "resize up" : "resize down");
      break;
    }
    case 4:
      reserved = vx::size(max);
      LOG("reserve(%zu)", reserved);
      buffer_reserve(&b, reserved);
      vx::count(reserved > cap ? "reserve more" : "reserve less");
      break;
    case 5:
      LOG("compact");
      buffer_compact(&b);
      compacted = true;
      vx::count(m.empty() ? "compact empty" : "compact");
      break;
    case 6:
      LOG("clear");
      buffer_clear(&b);
      m.clear();
      CHECK(vx::vx_live_blocks() == live0, "clear leaves memory allocated");
      vx::count("clear");
      break;
    case 7:
      LOG("destruct, construct");
      buffer_destruct(&b);
      CHECK(vx::vx_live_blocks() == live0, "destruct leaves memory allocated");
      memset((void *) &b, 0xbe, sizeof b); buffer_construct(&b);
      m.clear();
      vx::count("reconstruct");
      break;
    }
    CHECK(buffer_size(&b) == m.size(), "size %zu, expected %zu", buffer_size(&b), m.size());
    CHECK(m.empty() || memcmp(buffer_data(&b), m.data(), m.size()) == 0, "content differs: %s, expected %s",
          vx::quote(buffer_data(&b), m.size()).c_str(), vx::quote(m).c_str());
    size_t c = buffer_capacity(&b);
    CHECK(c >= m.size(), "capacity %zu below size %zu", c, m.size());
    CHECK(c >= reserved, "capacity %zu after reserve(%zu)", c, reserved);
    if (compacted) CHECK(c == m.size(), "capacity %zu after compacting %zu bytes", c, m.size());
    if (c > m.size()) memset((char *) buffer_data(&b) + m.size(), 0x5a, c - m.size()); // capacity is real memory
    if (c != cap) reallocs++;
    cap = c;
  }
  buffer_destruct(&b);
  CHECK(vx::vx_live_blocks() == live0, "destruct leaves %ld blocks allocated", vx::vx_live_blocks() - live0);
  if (inner && reallocs) vx::nontrivial();
}
