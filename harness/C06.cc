// C06: strings against std::string.
#include "common.h"

const vx::Spec vx_spec = {
  "C06", "string editing matches an ideal string", 300000, 15000000,
  "one case is a history of string operations (insert, prepend, append, erase, resize, allocate, replace, replace all, copy, find, compare) on up to three strings, over a small "
  "alphabet (zero byte included) so that patterns occur, overlap and occur again inside replacements, compared with std::string after every operation; non-trivial: a replacement "
  "or erase changed the string and a replacement or insertion made it longer than its capacity"};

static std::string text(size_t max)
{
  static const char alphabet[] = {'a', 'b', '\0', 'a', 'a', 'b', 'c', (char) 0xff};
  size_t n = vx::size(max);
  if (n > 40) return vx::pattern(n);
  unsigned width = 1 + vx::below(sizeof alphabet);
  std::string s;
  for (size_t i = 0; i < n; i++) s.push_back(alphabet[vx::below(width)]);
  return s;
}

static void same(string s, const std::string &m, const char *what)
{
  CHECK(string_size(s) == m.size(), "after %s the size is %zu, expected %zu", what, string_size(s), m.size());
  CHECK(m.empty() || memcmp(s, m.data(), m.size()) == 0, "after %s the content is %s, expected %s", what, vx::quote(s, m.size()).c_str(), vx::quote(m).c_str());
  CHECK(s[m.size()] == 0, "after %s no zero byte follows the content", what);
  CHECK(string_capacity(s) >= m.size(), "after %s the capacity is %zu for %zu bytes", what, string_capacity(s), m.size());
  CHECK(string_empty(s) == (m.size() == 0), "after %s string_empty is wrong", what);
  data d = string_data(s);
  CHECK(data_base(d) == s && data_size(d) == m.size(), "after %s string_data is not the content", what);
}

// naive first occurrence at or after pos
static size_t first(const std::string &m, size_t pos, const std::string &p)
{
  if (p.empty()) return std::string::npos;
  for (size_t i = pos; i + p.size() <= m.size(); i++)
    if (memcmp(m.data() + i, p.data(), p.size()) == 0) return i;
  return std::string::npos;
}

void vx_case()
{
  long live0 = vx::vx_live_blocks();
  size_t n = 1 + vx::below(3), max = vx::chance(1, 12) ? 5000 : vx::chance(1, 4) ? 60 : 8;
  std::vector<string> s(n, string_null());
  std::vector<std::string> m(n);
  bool edited = false, grown = false;
  for (size_t i = 0; i < n; i++) same(s[i], m[i], "creation");
  while (vx::more(14))
  {
    size_t i = vx::below(n), len = m[i].size(), cap = string_capacity(s[i]);
    const char *what = "";
    switch (vx::weighted({6, 3, 6, 5, 3, 2, 6, 6, 4, 5, 3}))
    {
    case 0:
    {
      size_t pos = vx::below(len + 1);
      std::string t = text(max);
      vx::Exact e(t);
      LOG("[%zu] insert %s at %zu", i, vx::quote(t).c_str(), pos);
      s[i] = string_insert_data(s[i], pos, dat(e));
      m[i].insert(pos, t);
      what = "insert";
      break;
    }
    case 1:
    {
      std::string t = text(max);
      vx::Exact e(t);
      LOG("[%zu] prepend %s", i, vx::quote(t).c_str());
      s[i] = string_prepend_data(s[i], dat(e));
      m[i].insert(0, t);
      what = "prepend";
      break;
    }
    case 2:
    {
      std::string t = text(max);
      vx::Exact e(t);
      LOG("[%zu] append %s", i, vx::quote(t).c_str());
      s[i] = string_append_data(s[i], vx::chance(1, 8) && t.empty() ? data_null() : dat(e));
      m[i] += t;
      what = "append";
      break;
    }
    case 3:
    {
      size_t pos = vx::below(len + 1), k = vx::chance(1, 6) ? len - pos : vx::below(std::min<size_t>(len - pos, 2 * max) + 1);
      LOG("[%zu] erase %zu at %zu", i, k, pos);
      s[i] = string_erase_data(s[i], k ? data_construct(s[i] + pos, k) : vx::chance(1, 2) ? data_null() : data_construct(s[i] + pos, 0));
      m[i].erase(pos, k);
      if (k) edited = true;
      what = "erase";
      break;
    }
    case 4:
    {
      size_t k = vx::size(2 * max);
      LOG("[%zu] resize %zu", i, k);
      size_t old = len;
      s[i] = string_resize(s[i], k);
      CHECK(string_size(s[i]) == k, "resize to %zu gives size %zu", k, string_size(s[i]));
      if (k > old) { for (size_t j = old; j < k; j++) s[i][j] = (char) ('a' + j % 3); m[i].resize(old); for (size_t j = old; j < k; j++) m[i].push_back((char) ('a' + j % 3)); }
      else m[i].resize(k);
      what = "resize";
      break;
    }
    case 5:
    {
      size_t k = vx::size(3 * max);
      LOG("[%zu] allocate %zu", i, k);
      s[i] = string_allocate(s[i], k);
      CHECK(string_capacity(s[i]) >= k, "allocate %zu gives capacity %zu", k, string_capacity(s[i]));
      what = "allocate";
      break;
    }
    case 6:
    case 7:
    {
      bool all = vx::chance(1, 2);
      std::string p = text(std::min<size_t>(max, 4)), r = text(max);
      if (vx::chance(1, 3) && len) { size_t at = vx::below(len); p = m[i].substr(at, 1 + vx::below(4)); }
      if (vx::chance(1, 5)) r = p + p;
      size_t most = 0;
      for (size_t at = 0; (at = first(m[i], at, p)) != std::string::npos; at += p.size()) most++;
      if (len + most * r.size() > 40000) r.resize(std::min<size_t>(r.size(), 1));
      vx::Exact ep(p), er(r);
      LOG("[%zu] replace%s %s by %s in %s", i, all ? " all" : "", vx::quote(p).c_str(), vx::quote(r).c_str(), vx::quote(m[i]).c_str());
      s[i] = all ? string_replace_all_data(s[i], dat(ep), dat(er)) : string_replace_data(s[i], dat(ep), dat(er));
      size_t pos = 0, hits = 0;
      while ((pos = first(m[i], pos, p)) != std::string::npos)
      {
        m[i].replace(pos, p.size(), r);
        pos += r.size();
        hits++;
        if (!all) break;
      }
      vx::count(hits == 0 ? "replace: no match" : hits == 1 ? "replace: one match" : "replace: several matches");
      if (hits) edited = true;
      what = all ? "replace all" : "replace";
      break;
    }
    case 8:
    {
      size_t j = vx::below(n);
      if (j == i) break;
      LOG("[%zu] copy to [%zu]", i, j);
      string c = string_copy(s[i]);
      CHECK(m[i].empty() || c != s[i], "copy shares memory");
      string_free(s[j]);
      s[j] = c;
      m[j] = m[i];
      same(s[j], m[j], "copy");
      what = "copy";
      break;
    }
    case 9:
    {
      std::string p = text(std::min<size_t>(max, 5));
      if (vx::chance(1, 2) && len) { size_t at = vx::below(len); p = m[i].substr(at, 1 + vx::below(5)); }
      size_t pos = vx::below(len + 1);
      vx::Exact e(p);
      data d = string_find_at_data(s[i], pos, dat(e));
      size_t want = first(m[i], pos, p);
      LOG("[%zu] find %s at %zu in %s", i, vx::quote(p).c_str(), pos, vx::quote(m[i]).c_str());
      if (want == std::string::npos) CHECK(data_empty(d), "find reports an occurrence that is not there");
      else CHECK(data_size(d) == p.size() && data_base(d) == s[i] + want, "find reports offset %td size %zu, expected offset %zu", (char *) data_base(d) - s[i], data_size(d), want);
      d = string_find_data(s[i], dat(e));
      want = first(m[i], 0, p);
      if (want == std::string::npos) CHECK(data_empty(d), "find reports an occurrence that is not there");
      else CHECK(data_size(d) == p.size() && data_base(d) == s[i] + want, "find does not report the first occurrence");
      vx::count(want == std::string::npos ? "find: absent" : "find: present");
      what = "find";
      break;
    }
    case 10:
    {
      size_t j = vx::below(n);
      CHECK((string_equal(s[i], s[j]) != 0) == (m[i] == m[j]), "equality of %s and %s is wrong", vx::quote(m[i]).c_str(), vx::quote(m[j]).c_str());
      // against a neighbour differing in one place
      std::string t = m[i];
      if (!t.empty()) { size_t at = vx::below(t.size()); if (vx::chance(1, 2)) t[at] = (char) (t[at] ^ 1); else t.resize(at); }
      vx::Exact e(t);
      string o = string_append_data(string_null(), dat(e));
      CHECK((string_equal(s[i], o) != 0) == (m[i] == t) && (string_equal(o, s[i]) != 0) == (m[i] == t), "equality of %s and %s is wrong", vx::quote(m[i]).c_str(), vx::quote(t).c_str());
      string_free(o);
      vx::count("compare");
      what = "compare";
      break;
    }
    }
    if (string_capacity(s[i]) > cap && cap) grown = true;
    if (*what) vx::count(what);
    for (size_t j = 0; j < n; j++) same(s[j], m[j], what);
    CHECK(string_size(string_null()) == 0 && string_null()[0] == 0 && string_capacity(string_null()) == 0, "the empty string was modified by %s", what);
  }
  for (size_t i = 0; i < n; i++) string_free(s[i]);
  CHECK(vx::vx_live_blocks() == live0, "%ld blocks still allocated after freeing every string", vx::vx_live_blocks() - live0);
  if (edited && grown) vx::nontrivial();
}
