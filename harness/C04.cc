// C04: generic, integer-keyed and string-keyed maps against std::map, under adversarial hashes.
#include "common.h"

const vx::Spec vx_spec = {
  "C04", "maps are finite maps", 40000, 3000000,
  "one case is a history of insert, erase, reserve, clear, lookup on one of the three map kinds, over a small universe of keys chosen so that hashes collide or wrap around "
  "(generic map: hash values drawn freely; integer and string maps: keys searched whose hash falls into chosen buckets, in a third of the cases keys that resemble one another: equal low bits, equal but for the case, beginnings of each other); every key is looked up, the map iterated and the released "
  "entries compared after every operation; non-trivial: an erase of a present key while another key of the universe with a nearby hash is present"};

struct Entry { uint64_t key, value, check; }; // generic map element; key 0 is empty
static std::map<uint64_t, uint64_t> hashes;
static size_t g_hash(void *p) { auto it = hashes.find(((Entry *) p)->key); CHECK(it != hashes.end(), "hash called on a key that was never inserted (%llu)", (unsigned long long) ((Entry *) p)->key); return it->second; }
static int g_equal(void *a, void *b)
{
  Entry *x = (Entry *) a, *y = (Entry *) b;
  return y ? x->key == y->key : x->key == 0;
}
static void g_set(void *a, void *b) { if (b) *(Entry *) a = *(Entry *) b; else memset(a, 0, sizeof(Entry)); }

static std::vector<std::pair<std::string, uint64_t>> released; // key as text, value
static void g_release(void *p) { Entry *e = (Entry *) p; CHECK(e->check == (e->key ^ e->value ^ 77), "released entry is corrupt"); released.push_back({std::to_string(e->key), e->value}); }
static void i_release(mapi_entry *e) { released.push_back({std::to_string(e->key), e->value}); }
static bool free_keys;
static void s_release(maps_entry *e) { CHECK(e->key != nullptr, "released entry has no key"); released.push_back({e->key, e->value}); if (free_keys) free(e->key); }

// one universe of keys, as text, with their hashes
typedef std::vector<std::pair<std::string, uint64_t>> Pool;
static Pool search_ints, search_strings;
static std::vector<Pool> family_ints, family_strings;
extern "C" void vx_worker_init(void)
{
  // pools of integer and string keys by low hash bits
  for (uint64_t i = 1; i <= 6000; i++)
  {
    uint64_t k = i <= 3000 ? i : i * 0x9e3779b97f4a7c15ULL;
    search_ints.push_back({std::to_string(k), hash_uint64(k)});
    std::string s = i < 2 ? "" : i % 3 == 0 ? std::string(i % 70, 'x') + std::to_string(i) : "k" + std::to_string(i);
    search_strings.push_back({s, hash_string((char *) s.c_str())});
  }
  // families of keys that a careless comparison takes for one another
  auto ints = [](uint64_t (*f)(uint64_t)) { Pool p; for (uint64_t i = 0; i < 1500; i++) { uint64_t k = f(i); p.push_back({std::to_string(k), hash_uint64(k)}); } family_ints.push_back(p); };
  ints([](uint64_t i) { return 7 + (i << 32); });               // equal in the low 32 bits
  ints([](uint64_t i) { return 0xffffffff + ((i * 3) << 32); });
  ints([](uint64_t i) { return (i + 1) << 48; });                // equal in the low 48 bits
  ints([](uint64_t i) { return 0xdeadbeef00000001 + (i << 8); }); // equal in the low 8 bits
  auto strings = [](std::string (*f)(size_t)) { Pool p; for (size_t i = 0; i < 1000; i++) { std::string s = f(i); p.push_back({s, hash_string((char *) s.c_str())}); } family_strings.push_back(p); };
  strings([](size_t i) { std::string s = "content-type"; for (size_t b = 0; b < 10; b++) if (i >> b & 1) s[b < 7 ? b : b + 1] ^= 32; return s; }); // equal but for the case
  strings([](size_t i) { return std::string(i % 1000, 'a'); }); // each the beginning of the next
  strings([](size_t i) { return std::string(100, 'p') + std::to_string(i); }); // a long beginning in common
  strings([](size_t i) { return std::to_string(i) + std::string(40, 's'); }); // a long end in common
  strings([](size_t i) { std::string s = "key"; s[0] = (char) (1 + i % 255); s[2] = (char) (1 + i / 255 * 41); return s; }); // bytes above 127
}

struct M
{
  virtual ~M() {}
  virtual void insert(size_t k, uint64_t v, bool rel) = 0;
  virtual void erase(size_t k, bool rel) = 0;
  virtual void reserve(size_t n) = 0;
  virtual void clear(bool rel) = 0;
  virtual void destruct(bool rel) = 0;
  virtual size_t size() = 0;
  virtual uint64_t at(size_t k) = 0; // 0 if absent
  virtual std::vector<std::pair<std::string, uint64_t>> all() = 0;
  std::vector<std::string> keys;
};
struct G : M
{
  map m;
  std::vector<uint64_t> k;
  G() { memset((void *) &m, 0xbe, sizeof m); map_construct(&m, sizeof(Entry), g_set); }
  Entry e(size_t i, uint64_t v) { return Entry{k[i], v, k[i] ^ v ^ 77}; }
  void insert(size_t i, uint64_t v, bool r) override { Entry x = e(i, v); map_insert(&m, &x, g_hash, g_set, g_equal, r ? g_release : nullptr); }
  void erase(size_t i, bool r) override { Entry x = e(i, 0); map_erase(&m, &x, g_hash, g_set, g_equal, r ? g_release : nullptr); }
  void reserve(size_t n) override { map_reserve(&m, n, g_hash, g_set, g_equal); }
  void clear(bool r) override { map_clear(&m, g_set, g_equal, r ? g_release : nullptr); }
  void destruct(bool r) override { map_destruct(&m, g_equal, r ? g_release : nullptr); }
  size_t size() override { return map_size(&m); }
  uint64_t at(size_t i) override
  {
    Entry x = e(i, 0), *p = (Entry *) map_at(&m, &x, g_hash, g_equal);
    CHECK(p != nullptr, "map_at returned nothing");
    CHECK(p->key == 0 ? p->value == 0 && p->check == 0 : p->key == k[i] && p->check == (p->key ^ p->value ^ 77), "map_at returned a wrong or corrupt entry");
    return p->value;
  }
  std::vector<std::pair<std::string, uint64_t>> all() override
  {
    std::vector<std::pair<std::string, uint64_t>> v;
    for (size_t i = 0; i < m.elements_capacity; i++)
    {
      Entry *x = (Entry *) m.elements + i;
      if (x->key) v.push_back({std::to_string(x->key), x->value});
    }
    return v;
  }
};
struct I : M
{
  mapi m;
  std::vector<uint64_t> k;
  I() { memset((void *) &m, 0xbe, sizeof m); mapi_construct(&m); }
  void insert(size_t i, uint64_t v, bool r) override { mapi_insert(&m, k[i], v, r ? i_release : nullptr); }
  void erase(size_t i, bool r) override { mapi_erase(&m, k[i], r ? i_release : nullptr); }
  void reserve(size_t n) override { mapi_reserve(&m, n); }
  void clear(bool r) override { mapi_clear(&m, r ? i_release : nullptr); }
  void destruct(bool r) override { mapi_destruct(&m, r ? i_release : nullptr); }
  size_t size() override { return mapi_size(&m); }
  uint64_t at(size_t i) override { return mapi_at(&m, k[i]); }
  std::vector<std::pair<std::string, uint64_t>> all() override
  {
    std::vector<std::pair<std::string, uint64_t>> v;
    c_mapi_each(&m, [](void *a, uintptr_t key, uintptr_t value) { ((decltype(v) *) a)->push_back({std::to_string(key), value}); }, &v);
    return v;
  }
};
struct St : M
{
  maps m;
  std::vector<std::string> k;
  bool own; // keys handed over to the map are freed by the release function
  St(bool o) : own(o) { memset((void *) &m, 0xbe, sizeof m); maps_construct(&m); free_keys = o; }
  void insert(size_t i, uint64_t v, bool r) override { maps_insert(&m, own ? strdup(k[i].c_str()) : (char *) k[i].c_str(), v, r ? s_release : nullptr); }
  void erase(size_t i, bool r) override { vx::Exact e(std::string(k[i].c_str(), k[i].size() + 1)); maps_erase(&m, e.p, r ? s_release : nullptr); }
  void reserve(size_t n) override { maps_reserve(&m, n); }
  void clear(bool r) override { maps_clear(&m, r ? s_release : nullptr); }
  void destruct(bool r) override { maps_destruct(&m, r ? s_release : nullptr); }
  size_t size() override { return maps_size(&m); }
  uint64_t at(size_t i) override { vx::Exact e(std::string(k[i].c_str(), k[i].size() + 1)); return maps_at(&m, e.p); }
  std::vector<std::pair<std::string, uint64_t>> all() override
  {
    std::vector<std::pair<std::string, uint64_t>> v;
    c_maps_each(&m, [](void *a, const char *key, uintptr_t value) { ((decltype(v) *) a)->push_back({key, value}); }, &v);
    return v;
  }
};

void vx_case()
{
  long live0 = vx::vx_live_blocks();
  unsigned kind = vx::below(3);
  bool big = vx::chance(1, 25), own = kind == 2 && vx::chance(1, 2);
  bool huge = big && vx::chance(1, 100); // more than 65536 slots, for all their low bits
  size_t universe = huge ? 3000 + vx::below(3000) : big ? 50 + vx::below(1200) : 2 + vx::below(30);
  // which low hash bits are allowed: a short window of buckets (possibly wrapping around), or anything
  unsigned bits = 4 + vx::below(4), width = vx::chance(1, 5) ? 1u << bits : 1 + vx::below(5), start = vx::below(1u << bits);
  auto near = [&](uint64_t h) { return (((h & ((1u << bits) - 1)) - start) & ((1u << bits) - 1)) < width; };
  std::unique_ptr<M> m;
  std::vector<uint64_t> h;
  std::vector<std::string> keys;
  if (big) { bits = 4; width = 16; }
  if (kind == 0)
  {
    auto *g = new G;
    m.reset(g);
    hashes.clear();
    for (size_t i = 0; i < universe; i++)
    {
      uint64_t high = vx::bits(20);
      uint64_t x = (high << bits) | ((start + vx::below(width)) & ((1u << bits) - 1));
      if (big) x = huge ? (i & 1 ? i << 4 : (i << 16) + vx::below(1 << 16)) : vx::chance(1, 2) ? i * 7 : vx::below(4096);
      g->k.push_back(i + 1);
      hashes[i + 1] = x;
      h.push_back(x);
      keys.push_back(std::to_string(i + 1));
    }
  }
  else
  {
    bool family = !big && vx::chance(1, 3);
    auto &pool = family ? vx::pick(kind == 1 ? family_ints : family_strings) : kind == 1 ? search_ints : search_strings;
    if (family) vx::count("keys that resemble one another");
    size_t at = vx::below(pool.size());
    I *mi = kind == 1 ? new I : nullptr;
    St *ms = kind == 2 ? new St(own) : nullptr;
    if (mi) m.reset(mi); else m.reset(ms);
    for (size_t n = 0; n < pool.size() && keys.size() < universe; n++, at = (at + 1) % pool.size())
      if (big || near(pool[at].second))
      {
        keys.push_back(pool[at].first);
        h.push_back(pool[at].second);
        if (mi) mi->k.push_back(strtoull(pool[at].first.c_str(), nullptr, 10));
        else ms->k.push_back(pool[at].first);
      }
    universe = keys.size();
    if (mi && vx::chance(1, 4)) { mi->k.back() = UINT64_MAX; keys.back() = std::to_string(UINT64_MAX); h.back() = hash_uint64(UINT64_MAX); if (std::count(keys.begin(), keys.end(), keys.back()) > 1) { mi->k.pop_back(); keys.pop_back(); h.pop_back(); universe--; } }
  }
  if (universe == 0) { m->destruct(false); return; }
  const char *names[] = {"generic", "integer", "string"};
  vx::count(names[kind]);
  LOG("%s map, %zu keys, hash window %u+%u of %u", names[kind], universe, start, width, 1u << bits);
  std::map<std::string, uint64_t> model;
  uint64_t value = 0;
  size_t interesting = 0, step = 0;
  if (huge) { size_t n = vx::chance(1, 2) ? ((size_t) 1 << (15 + vx::below(3))) + vx::below(3) : 33000 + vx::below(200000); LOG("reserve %zu", n); m->reserve(n); vx::count("more than 65536 slots"); }
  while (vx::more(huge ? 4000 : big ? 800 : 40))
  {
    released.clear();
    std::vector<std::pair<std::string, uint64_t>> expect;
    bool rel = own || vx::chance(7, 8);
    size_t k = vx::below(universe);
    bool full = !big || ++step % (huge ? 1000 : 64) == 0;
    switch (vx::weighted({12, 10, 1, big ? 0u : 1u, big ? 0u : 1u}))
    {
    case 0:
    {
      uint64_t v = vx::chance(1, 30) ? 0 : ++value;
      LOG("insert %s = %llu%s", keys[k].c_str(), (unsigned long long) v, model.count(keys[k]) ? " (present)" : "");
      m->insert(k, v, rel);
      vx::count(model.count(keys[k]) ? "insert present" : "insert new");
      if (!model.emplace(keys[k], v).second) expect.push_back({keys[k], v});
      break;
    }
    case 1:
    {
      auto it = model.find(keys[k]);
      LOG("erase %s%s", keys[k].c_str(), it == model.end() ? " (absent)" : "");
      m->erase(k, rel);
      vx::count(it == model.end() ? "erase absent" : "erase present");
      if (it != model.end())
      {
        expect.push_back(*it);
        model.erase(it);
        for (size_t j = 0; j < universe && !interesting; j++)
          if (j != k && model.count(keys[j]) && ((h[j] - h[k]) & 15) <= 2) interesting++;
      }
      break;
    }
    case 2: { size_t n = vx::size(big ? 3000 : 70); if (big && vx::chance(1, 50)) n = 40000 + vx::below(200000); LOG("reserve %zu", n); m->reserve(n); vx::count("reserve"); break; }
    case 3:
      LOG("clear");
      expect.assign(model.begin(), model.end());
      m->clear(rel);
      model.clear();
      vx::count("clear");
      break;
    case 4:
    {
      auto x = m->all();
      full = true;
      vx::count("iterate");
      break;
    }
    }
    if (!rel) expect.clear();
    std::sort(released.begin(), released.end());
    std::sort(expect.begin(), expect.end());
    CHECK(released == expect, "%zu entries released (first: %s=%llu), expected %zu", released.size(), released.empty() ? "none" : released[0].first.c_str(),
          (unsigned long long) (released.empty() ? 0 : released[0].second), expect.size());
    CHECK(m->size() == model.size(), "size %zu, expected %zu", m->size(), model.size());
    if (full)
    {
      for (size_t i = 0; i < universe; i++)
      {
        auto it = model.find(keys[i]);
        uint64_t got = m->at(i), want = it == model.end() ? 0 : it->second;
        CHECK(got == want, "lookup of %s (%s) gives %llu, expected %llu", keys[i].c_str(), it == model.end() ? "absent" : "present", (unsigned long long) got, (unsigned long long) want);
      }
      auto all = m->all();
      std::sort(all.begin(), all.end());
      std::vector<std::pair<std::string, uint64_t>> want(model.begin(), model.end());
      CHECK(all == want, "iteration visits %zu entries, expected %zu, or they differ", all.size(), want.size());
    }
    else
    {
      auto it = model.find(keys[k]);
      CHECK(m->at(k) == (it == model.end() ? 0 : it->second), "lookup of %s is wrong", keys[k].c_str());
    }
  }
  released.clear();
  m->destruct(true);
  std::sort(released.begin(), released.end());
  std::vector<std::pair<std::string, uint64_t>> want(model.begin(), model.end());
  CHECK(released == want, "destruct released %zu entries, expected %zu", released.size(), want.size());
  CHECK(vx::vx_live_blocks() == live0, "destruct leaves memory allocated");
  if (interesting) vx::nontrivial();
}
