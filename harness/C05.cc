// C05: hash functions against an independent transcription of FarmHash (farmhashna) and the murmur3 finalizer.
#include "common.h"

const vx::Spec vx_spec = {
  "C05", "hash functions", 1500000, 60000000,
  "one case hashes one byte string (length 0..600, now and then up to 100000, covering every length class, all alignments, exact-size memory) with two different surroundings, or one 64-bit integer, and "
  "compares with a reference implementation; non-trivial: a string of at least one byte, or an integer with high and low halves non-zero"};

typedef uint64_t u64;
static const u64 k0 = 0xc3a5c85c97cb3127ULL, k1 = 0xb492b66fbe98f273ULL, k2 = 0x9ae16a3b2f90404fULL;
static u64 f64(const std::string &s, size_t i) { u64 v = 0; for (int j = 7; j >= 0; j--) v = v << 8 | (uint8_t) s.at(i + j); return v; }
static u64 f32(const std::string &s, size_t i) { u64 v = 0; for (int j = 3; j >= 0; j--) v = v << 8 | (uint8_t) s.at(i + j); return v; }
static u64 rot(u64 v, int n) { return v >> n | v << (64 - n); }
static u64 mix(u64 v) { return v ^ (v >> 47); }
static u64 h16(u64 u, u64 v, u64 m) { u64 a = mix((u ^ v) * m); u64 b = mix((v ^ a) * m); return b * m; }
typedef std::pair<u64, u64> P;
static P weak(const std::string &s, size_t i, u64 a, u64 b)
{
  u64 w = f64(s, i), x = f64(s, i + 8), y = f64(s, i + 16), z = f64(s, i + 24);
  a += w;
  b = rot(b + a + z, 21);
  u64 c = a;
  a += x;
  a += y;
  b += rot(a, 44);
  return {a + z, b + c};
}
static u64 farm(const std::string &s)
{
  size_t n = s.size();
  u64 mul = k2 + n * 2;
  if (n == 0) return k2;
  if (n < 4) { uint8_t a = s[0], b = s[n >> 1], c = s[n - 1]; return mix(((u64) a + ((u64) b << 8)) * k2 ^ (n + ((u64) c << 2)) * k0) * k2; }
  if (n < 8) return h16(n + (f32(s, 0) << 3), f32(s, n - 4), mul);
  if (n <= 16) { u64 a = f64(s, 0) + k2, b = f64(s, n - 8); return h16(rot(b, 37) * mul + a, (rot(a, 25) + b) * mul, mul); }
  if (n <= 32)
  {
    u64 a = f64(s, 0) * k1, b = f64(s, 8), c = f64(s, n - 8) * mul, d = f64(s, n - 16) * k2;
    return h16(rot(a + b, 43) + rot(c, 30) + d, a + rot(b + k2, 18) + c, mul);
  }
  if (n <= 64)
  {
    u64 a = f64(s, 0) * k2, b = f64(s, 8), c = f64(s, n - 8) * mul, d = f64(s, n - 16) * k2;
    u64 y = rot(a + b, 43) + rot(c, 30) + d, z = h16(y, a + rot(b + k2, 18) + c, mul);
    u64 e = f64(s, 16) * mul, f = f64(s, 24), g = (y + f64(s, n - 32)) * mul, h = (z + f64(s, n - 24)) * mul;
    return h16(rot(e + f, 43) + rot(g, 30) + h, e + rot(f + a, 18) + g, mul);
  }
  u64 x = 81, y = 81 * k1 + 113, z = mix(y * k2 + 113) * k2;
  P v(0, 0), w(0, 0);
  x = x * k2 + f64(s, 0);
  size_t end = (n - 1) / 64 * 64, last = n - 64, i = 0;
  do
  {
    x = rot(x + y + v.first + f64(s, i + 8), 37) * k1;
    y = rot(y + v.second + f64(s, i + 48), 42) * k1;
    x ^= w.second;
    y += v.first + f64(s, i + 40);
    z = rot(z + w.first, 33) * k1;
    v = weak(s, i, v.second * k1, x + w.first);
    w = weak(s, i + 32, z + w.second, y + f64(s, i + 16));
    std::swap(z, x);
    i += 64;
  } while (i != end);
  mul = k1 + ((z & 0xff) << 1);
  i = last;
  w.first += (n - 1) & 63;
  v.first += w.first;
  w.first += v.first;
  x = rot(x + y + v.first + f64(s, i + 8), 37) * mul;
  y = rot(y + v.second + f64(s, i + 48), 42) * mul;
  x ^= w.second * 9;
  y += v.first * 9 + f64(s, i + 40);
  z = rot(z + w.first, 33) * mul;
  v = weak(s, i, v.second * mul, x + w.first);
  w = weak(s, i + 32, z + w.second, y + f64(s, i + 16));
  std::swap(z, x);
  return h16(h16(v.first, w.first, mul) + mix(y) * k0 + z, h16(v.second, w.second, mul) + x, mul);
}
static u64 unxs33(u64 v) { return v ^ (v >> 33); } // its own inverse for shifts above 32
static u64 inv(u64 a) { u64 x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }

void vx_case()
{
  if (vx::below(4) == 0)
  {
    u64 v = vx::below(2) ? vx::bits(64) : vx::below(UINT64_MAX);
    u64 h = hash_uint64(v), r = v;
    r ^= r >> 33; r *= 0xff51afd7ed558ccdULL; r ^= r >> 33; r *= 0xc4ceb9fe1a85ec53ULL; r ^= r >> 33;
    LOG("hash_uint64(%llu) = %llx", (unsigned long long) v, (unsigned long long) h);
    CHECK(h == r, "hash_uint64(%llu) = %llx, expected %llx", (unsigned long long) v, (unsigned long long) h, (unsigned long long) r);
    u64 back = unxs33(h) * inv(0xc4ceb9fe1a85ec53ULL);
    back = unxs33(back) * inv(0xff51afd7ed558ccdULL);
    CHECK(unxs33(back) == v, "hash_uint64(%llu) cannot be inverted", (unsigned long long) v);
    if (v >> 32 && (uint32_t) v) vx::nontrivial();
    vx::count("integer");
    return;
  }
  size_t n;
  switch (vx::below(6))
  {
  case 0: n = vx::below(17); break;
  case 1: n = 16 + vx::below(18); break;
  case 2: n = 32 + vx::below(34); break;
  case 3: n = 64 * (1 + vx::below(8)) + vx::below(3) - 1; break;
  case 4: n = vx::below(600); break;
  default: n = vx::chance(1, 50) ? vx::below(100000) : vx::below(200); break;
  }
  bool zero_free = vx::chance(1, 2);
  std::string s = n <= 12 ? vx::bytes(n) : vx::pattern(n);
  if (n > 12 && vx::chance(1, 2)) { size_t i = vx::below(n); s[i] = (char) vx::byte(); }
  if (vx::chance(1, 20)) s.assign(n, (char) vx::byte());
  if (zero_free) for (auto &c : s) if (!c) c = 1;
  u64 want = farm(s);
  {
    vx::Exact e(s);
    u64 got = hash_data(e.p, e.n);
    LOG("hash_data(%s) = %llx", vx::quote(s, 60).c_str(), (unsigned long long) got);
    CHECK(got == want, "hash of %s (%zu bytes) is %llx, expected %llx", vx::quote(s).c_str(), n, (unsigned long long) got, (unsigned long long) want);
    CHECK(memcmp(e.p, s.data(), n) == 0, "hashing changed its input");
  }
  {
    size_t off = vx::below(17);
    std::string around(off, (char) vx::byte());
    around += s;
    around += vx::bytes(3);
    u64 got = hash_data(&around[0] + off, n);
    CHECK(got == want, "hash of %zu bytes at offset %zu depends on its surroundings: %llx, expected %llx", n, off, (unsigned long long) got, (unsigned long long) want);
  }
  if (zero_free)
  {
    vx::Exact e(s + std::string(1, 0));
    u64 got = hash_string(e.p);
    CHECK(got == want, "hash_string of %zu bytes is %llx, expected %llx", n, (unsigned long long) got, (unsigned long long) want);
  }
  vx::count(n == 0 ? "0" : n < 4 ? "1-3" : n < 8 ? "4-7" : n <= 16 ? "8-16" : n <= 32 ? "17-32" : n <= 64 ? "33-64" : n % 64 == 0 ? "65+ whole blocks" : "65+");
  if (n) vx::nontrivial();
}
