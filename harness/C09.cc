// C09: data slices and the write pointer against ideal byte strings.
#include "common.h"
#include <sys/mman.h>
#include <unistd.h>

const vx::Spec vx_spec = {
  "C09", "data slices and write pointer", 1000000, 40000000,
  "one case builds slices of exact-size buffers over a tiny alphabet (zero byte included), relates them by generated edits and checks every slice operation against std::string, or runs a "
  "sequence of pushes into an exact-size area; non-trivial: two different non-empty slices with a common prefix, or at least three pushes of different sizes"};

static std::string text(size_t max)
{
  size_t n = vx::size(max);
  if (n > 60) return vx::pattern(n);
  static const char a[] = {0, 'a', 'A', (char) 0x80, (char) 0xff};
  std::string s;
  for (size_t i = 0; i < n; i++) s.push_back(a[vx::below(5)]);
  return s;
}
static int sgn(bool b) { return b ? 1 : 0; }

void vx_case()
{
  long live0 = vx::vx_live_blocks();
  if (vx::chance(1, 3))
  {
    // pushes
    size_t room = 0;
    std::vector<std::pair<bool, std::string>> ops;
    std::set<size_t> sizes;
    size_t max = vx::chance(1, 1000) ? 2500000 : vx::chance(1, 10) ? 100000 : 40;
    while (vx::more(6))
    {
      unsigned w = vx::below(3);
      std::string s = w == 0 ? vx::bytes(1) : text(max);
      if (w == 0) ops.push_back({true, s});
      else ops.push_back({false, s});
      room += s.size();
      sizes.insert(s.size());
    }
    size_t skip = vx::below(4);
    std::string want(skip, '~');
    vx::Exact area(std::string(room + skip, '~'));
    pointer p = area.p;
    if (skip) pointer_move(&p, skip);
    CHECK(p == area.p + skip, "pointer_move(%zu) moves by %td", skip, (char *) p - area.p);
    for (auto &o : ops)
    {
      vx::Exact e(o.second);
      LOG("push%s %s", o.first ? " byte" : "", vx::quote(o.second).c_str());
      if (o.first) pointer_push_byte(&p, (uint8_t) o.second[0]);
      else pointer_push(&p, dat(e));
      want += o.second;
      CHECK(p == area.p + want.size(), "pointer advanced to %td, expected %zu", (char *) p - area.p, want.size());
      CHECK(memcmp(e.p, o.second.data(), e.n) == 0, "push changed its source");
    }
    CHECK(memcmp(area.p, want.data(), want.size()) == 0, "pushed bytes are %s, expected %s", vx::quote(area.p, want.size()).c_str(), vx::quote(want).c_str());
    vx::count("push");
    if (sizes.size() >= 3) vx::nontrivial();
    return;
  }
  std::string a = text(vx::chance(1, 10) ? 5000 : 24), b;
  switch (vx::weighted({3, 2, 2, 2, 2}))
  {
  case 0: b = text(24); break;
  case 1: b = a; break;
  case 2: b = a + text(6); break;
  case 3: b = a.substr(0, vx::below(a.size() + 1)); break;
  case 4: b = a; if (!b.empty()) { size_t k = vx::below(b.size()); b[k] = (char) (b[k] ^ (1 << vx::below(8))); } break;
  }
  vx::Exact ea(a), eb(b);
  data da = data_construct(ea.p, ea.n), db = data_construct(eb.p, eb.n);
  if (a.empty() && vx::chance(1, 3)) da = data_null();
  LOG("a=%s b=%s", vx::quote(a).c_str(), vx::quote(b).c_str());
  CHECK(data_size(da) == a.size() && (a.empty() || data_base(da) == ea.p), "data_construct");
  CHECK(data_size(data_null()) == 0 && data_empty(data_null()), "the null slice is not empty");
  CHECK(sgn(data_empty(da)) == a.empty(), "data_empty");
  CHECK(sgn(data_equal(da, db)) == (a == b) && sgn(data_equal(db, da)) == (a == b), "data_equal of %s and %s is %d", vx::quote(a).c_str(), vx::quote(b).c_str(), data_equal(da, db));
  auto prefix = [](const std::string &x, const std::string &y) { return x.size() <= y.size() && y.compare(0, x.size(), x) == 0; };
  CHECK(sgn(data_prefix(da, db)) == prefix(a, b), "data_prefix of %s and %s is %d", vx::quote(a).c_str(), vx::quote(b).c_str(), data_prefix(da, db));
  CHECK(sgn(data_prefix(db, da)) == prefix(b, a), "data_prefix of %s and %s is %d", vx::quote(b).c_str(), vx::quote(a).c_str(), data_prefix(db, da));
  if (!a.empty() && a != b && !b.empty() && a[0] == b[0]) vx::nontrivial();
  // slices of a slice
  if (!a.empty())
  {
    da = data_construct(ea.p, ea.n);
    size_t off = vx::below(a.size() + 1), n = vx::below(a.size() - off + 1);
    data s = data_select(da, off, n);
    CHECK(data_base(s) == ea.p + off && data_size(s) == n, "data_select(%zu, %zu) is offset %td size %zu", off, n, (char *) data_base(s) - ea.p, data_size(s));
    CHECK(data_offset(da, s) == off, "data_offset is %zu, expected %zu", data_offset(da, s), off);
    size_t k = vx::below(a.size() + 1);
    data c = data_consume(da, k);
    CHECK(data_base(c) == ea.p + k && data_size(c) == a.size() - k, "data_consume(%zu) of %zu bytes leaves %zu", k, a.size(), data_size(c));
    // consuming in two steps is consuming at once
    size_t k2 = vx::below(a.size() - k + 1);
    data c2 = data_consume(c, k2), c3 = data_consume(da, k + k2);
    CHECK(data_base(c2) == data_base(c3) && data_size(c2) == data_size(c3), "data_consume does not compose");
    CHECK(sgn(data_equal(data_select(da, k, data_size(c)), c)) == 1, "select and consume disagree");
    CHECK(str(s) == a.substr(off, n), "selected bytes differ");
    CHECK(memcmp(ea.p, a.data(), a.size()) == 0, "a slice operation changed the bytes");
  }
  // zero-terminated
  {
    std::string z = a.substr(0, strnlen(a.c_str(), a.size()));
    vx::Exact ez(std::string(z.c_str(), z.size() + 1));
    data d = data_string(ez.p);
    CHECK(data_base(d) == ez.p && data_size(d) == z.size(), "data_string of %s has size %zu", vx::quote(z).c_str(), data_size(d));
  }
  // allocation
  {
    size_t n = vx::size(vx::chance(1, 30) ? 3000000 : 300);
    data d = data_alloc(n);
    CHECK(data_size(d) == n, "data_alloc(%zu) has size %zu", n, data_size(d));
    for (size_t i = 0; i < n; i++) if (((const char *) data_base(d))[i]) vx::fail("allocated byte %zu of %zu is not zero", i, n);
    if (n) { memset((void *) data_base(d), 0xa5, n); }
    data_free(d);
    CHECK(vx::vx_live_blocks() == live0, "data_free leaves memory allocated");
    vx::count("alloc");
  }
}
