// C03: lists against ideal sequences, with address stability and release accounting.
#include "common.h"

const vx::Spec vx_spec = {
  "C03", "list order, stability, release", 500000, 15000000,
  "one case is a history over 1..3 lists of push front/back, insert before, splice (within and between lists), erase, clear, find; both walks, contents and addresses are "
  "compared with std::vector models after every operation; non-trivial: a splice between two positions that are not adjacent, and an erase inside a list"};

struct Obj { void *p; std::string c; };
static std::vector<std::pair<void *, std::string>> released;
static std::map<void *, size_t> sizes;
static void release(void *o) { auto it = sizes.find(o); CHECK(it != sizes.end(), "released an address that is no live object"); released.push_back({o, std::string((char *) o, it->second)}); }
static int compare_calls;
static std::string *needle_addr;
static int compare(void *needle, void *object)
{
  compare_calls++;
  CHECK(needle == needle_addr, "compare got a wrong first argument");
  auto it = sizes.find(object);
  CHECK(it != sizes.end(), "compare was given an address that is no live object");
  return *needle_addr == std::string((char *) object, it->second) ? 0 : vx::below(2) ? 1 : -1;
}

void vx_case()
{
  long live0 = vx::vx_live_blocks();
  unsigned nl = 1 + vx::below(3);
  list l[3];
  std::vector<Obj> m[3];
  released.clear();
  sizes.clear();
  size_t splices = 0, inner_erase = 0;
  for (unsigned i = 0; i < nl; i++) { memset((void *) &l[i], 0xbe, sizeof l[i]); list_construct(&l[i]); }
  auto content = [&] { size_t n = vx::below(4) == 0 ? vx::size(300) : vx::below(12); return n <= 12 ? std::string(n, (char) ('a' + vx::below(4))) : vx::pattern(n); };
  if (vx::chance(1, 3000))
  { // a long list
    size_t n = 100 + vx::below(1400);
    LOG("list 0: push_back %zu short objects", n);
    vx::count("hundreds of objects");
    for (size_t i = 0; i < n; i++)
    {
      std::string c = std::to_string(i);
      void *p = list_push_back(&l[0], c.data(), c.size());
      CHECK(p != nullptr && !sizes.count(p), "a new object has the address of a live one");
      sizes[p] = c.size();
      m[0].push_back(Obj{p, c});
    }
  }
  while (vx::more(30))
  {
    unsigned k = vx::below(nl);
    released.clear();
    std::vector<Obj> expect;
    list_release *rel = vx::chance(1, 5) ? nullptr : release;
    auto add = [&](size_t pos, void *p, const std::string &c, bool null) {
      CHECK(p != nullptr && !sizes.count(p), "a new object has the address of a live one");
      if (null) for (size_t i = 0; i < c.size(); i++) CHECK(((char *) p)[i] == 0, "byte %zu of %zu of an object added without content is not zero", i, c.size());
      if (null && c.size()) memcpy(p, c.data(), c.size());
      sizes[p] = c.size();
      m[k].insert(m[k].begin() + pos, Obj{p, c});
    };
    switch (vx::weighted({4, 4, 5, 6, 5, 1, 3, 1}))
    {
    case 0: { std::string c = content(); bool null = vx::chance(1, 4); vx::Exact e(c); LOG("list %u: push_front %s", k, vx::quote(c, 20).c_str()); add(0, list_push_front(&l[k], null ? nullptr : e.p, c.size()), c, null); vx::count("push_front"); break; }
    case 1: { std::string c = content(); bool null = vx::chance(1, 4); vx::Exact e(c); LOG("list %u: push_back %s", k, vx::quote(c, 20).c_str()); add(m[k].size(), list_push_back(&l[k], null ? nullptr : e.p, c.size()), c, null); vx::count("push_back"); break; }
    case 2:
    {
      std::string c = content(); bool null = vx::chance(1, 4); vx::Exact e(c);
      size_t pos = vx::below(m[k].size() + 1);
      void *before = pos == m[k].size() ? list_end(&l[k]) : m[k][pos].p;
      LOG("list %u: insert before %zu %s", k, pos, vx::quote(c, 20).c_str());
      add(pos, list_insert(before, null ? nullptr : e.p, c.size()), c, null);
      vx::count("insert");
      break;
    }
    case 3:
    {
      unsigned j = vx::below(nl);
      if (m[j].empty()) break;
      size_t from = vx::below(m[j].size()), to = vx::below(m[k].size() + 1);
      void *target = to == m[k].size() ? list_end(&l[k]) : m[k][to].p;
      LOG("splice list %u object %zu before list %u object %zu", j, from, k, to);
      list_splice(target, m[j][from].p);
      vx::count(j == k ? from == to ? "splice onto itself" : to == from + 1 ? "splice in place" : "splice within" : "splice between");
      if (j != k || (from != to && to != from + 1)) splices++;
      Obj o = m[j][from];
      if (j == k && from == to) break;
      m[j].erase(m[j].begin() + from);
      if (j == k && to > from) to--;
      m[k].insert(m[k].begin() + to, o);
      break;
    }
    case 4:
    {
      if (m[k].empty()) break;
      size_t pos = vx::below(m[k].size());
      LOG("list %u: erase %zu", k, pos);
      expect.push_back(m[k][pos]);
      list_erase(m[k][pos].p, rel);
      if (pos > 0 && pos + 1 < m[k].size()) inner_erase++;
      m[k].erase(m[k].begin() + pos);
      vx::count("erase");
      break;
    }
    case 5:
      LOG("list %u: clear", k);
      expect = m[k];
      list_clear(&l[k], rel);
      m[k].clear();
      vx::count("clear");
      break;
    case 6:
    {
      std::string needle = m[k].size() && vx::chance(3, 4) ? m[k][vx::below(m[k].size())].c : content();
      void *want = nullptr;
      for (auto &o : m[k]) if (o.c == needle) { want = o.p; break; }
      needle_addr = &needle;
      compare_calls = 0;
      void *got = list_find(&l[k], compare, &needle);
      LOG("list %u: find %s", k, vx::quote(needle, 20).c_str());
      CHECK(got == want, "find returned %s", got == nullptr ? "nothing" : want == nullptr ? "an object although none matches" : "another object than the first match");
      vx::count(want ? "find present" : "find absent");
      break;
    }
    case 7:
      LOG("list %u: destruct, construct", k);
      expect = m[k];
      list_destruct(&l[k], rel);
      m[k].clear();
      memset((void *) &l[k], 0xbe, sizeof l[k]);
      list_construct(&l[k]);
      vx::count("reconstruct");
      break;
    }
    if (rel)
    {
      CHECK(released.size() == expect.size(), "released %zu objects, expected %zu", released.size(), expect.size());
      for (auto &e : expect)
      {
        size_t n = 0;
        for (auto &r : released) if (r.first == e.p) { n++; CHECK(r.second == e.c, "object released with content %s, expected %s", vx::quote(r.second).c_str(), vx::quote(e.c).c_str()); }
        CHECK(n == 1, "object released %zu times", n);
      }
    }
    else CHECK(released.empty(), "release called although none was given");
    for (auto &e : expect) sizes.erase(e.p);

    for (unsigned i = 0; i < nl; i++)
    {

      CHECK(!list_empty(&l[i]) == !m[i].empty(), "empty() is wrong for list %u with %zu objects", i, m[i].size());
      size_t n = 0;
      void *o;
      list_foreach(&l[i], o)
      {
        CHECK(n < m[i].size(), "forward walk of list %u finds more than %zu objects", i, m[i].size());
        CHECK(o == m[i][n].p, "forward walk of list %u: object %zu is not the expected one", i, n);
        CHECK(memcmp(o, m[i][n].c.data(), m[i][n].c.size()) == 0, "content of object %zu changed", n);
        n++;
      }
      CHECK(n == m[i].size(), "forward walk of list %u finds %zu of %zu objects", i, n, m[i].size());
      list_foreach_reverse(&l[i], o)
      {
        CHECK(n > 0, "backward walk of list %u finds more than %zu objects", i, m[i].size());
        n--;
        CHECK(o == m[i][n].p, "backward walk of list %u: object %zu is not the expected one", i, n);
      }
      CHECK(n == 0, "backward walk of list %u misses %zu objects", i, n);
      if (m[i].size()) CHECK(list_front(&l[i]) == m[i].front().p && list_back(&l[i]) == m[i].back().p, "front or back of list %u is wrong", i);
      else CHECK(list_front(&l[i]) == list_end(&l[i]) && list_back(&l[i]) == list_end(&l[i]), "front or back of an empty list is not its end");
    }
  }
  for (unsigned i = 0; i < nl; i++)
  {
    released.clear();
    list_destruct(&l[i], release);
    CHECK(released.size() == m[i].size(), "destruct released %zu of %zu objects", released.size(), m[i].size());
  }
  CHECK(vx::vx_live_blocks() == live0, "destruct leaves memory allocated");
  if (splices && inner_erase) vx::nontrivial();
}
