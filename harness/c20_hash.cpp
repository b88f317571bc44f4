// C20: hashes.
#include "datas/jenkinshash.hpp"
#include "datas/jenkinshash3.hpp"
#include "mon.hpp"
#include <map>
#include <memory>
#include <set>
using namespace mon;

// references, written from the published algorithms
static uint32_t oneAtATime(const std::string &s) {
  uint32_t h = 0;
  for (unsigned char c : s)
    h += c, h += h << 10, h ^= h >> 6;
  h += h << 3, h ^= h >> 11, h += h << 15;
  return h;
}
// the library's own flavour keeps carries of each step (bits over 32 take part in the right shift)
static uint32_t oneAtATimeCarry(const std::string &s) {
  typedef unsigned __int128 W;
  W h = 0;
  for (unsigned char c : s) {
    h = h + c;
    h = h + h * 1024;
    h = h ^ (h / 64);
    h = h % (W(1) << 32);
  }
  h = h + h * 8;
  h = h ^ (h / 2048);
  h = h + h * 32768;
  return uint32_t(h % (W(1) << 32));
}
static uint32_t rotl(uint32_t x, int k) { return x << k | x >> (32 - k); }
// lookup3 hashword() over the text as little endian words, the last one padded with zeros
static uint32_t lookup3(const std::string &s, uint32_t seed) {
  std::vector<uint32_t> w((s.size() + 3) / 4);
  for (size_t i = 0; i < s.size(); i++)
    w[i / 4] |= uint32_t((unsigned char)s[i]) << (i % 4 * 8);
  size_t n = w.size(), p = 0;
  uint32_t a, b, c;
  a = b = c = 0xdeadbeef + uint32_t(n * 4) + seed;
  while (n > 3) {
    a += w[p], b += w[p + 1], c += w[p + 2];
    a -= c, a ^= rotl(c, 4), c += b;
    b -= a, b ^= rotl(a, 6), a += c;
    c -= b, c ^= rotl(b, 8), b += a;
    a -= c, a ^= rotl(c, 16), c += b;
    b -= a, b ^= rotl(a, 19), a += c;
    c -= b, c ^= rotl(b, 4), b += a;
    n -= 3, p += 3;
  }
  switch (n) {
  case 3: c += w[p + 2]; // fallthrough
  case 2: b += w[p + 1]; // fallthrough
  case 1:
    a += w[p];
    c ^= b, c -= rotl(b, 14);
    a ^= c, a -= rotl(c, 11);
    b ^= a, b -= rotl(a, 25);
    c ^= b, c -= rotl(b, 16);
    a ^= c, a -= rotl(c, 4);
    b ^= a, b -= rotl(a, 14);
    c ^= b, c -= rotl(b, 24);
  }
  return c;
}

static void check(const std::string &s, uint32_t seed) {
  std::unique_ptr<char[]> raw(new char[s.size()]);
  std::copy(s.begin(), s.end(), raw.get());
  es::string_view v(raw.get(), s.size());
  note("'" + esc(s) + "'");
  const uint32_t a = oneAtATimeCarry(s), b = oneAtATime(s), l = lookup3(s, 0);
  CHECK(JenHash(v).raw() == a, "hash", "hash of '%s' is %08x, not %08x", esc(s).c_str(), JenHash(v).raw(), a);
  CHECK(JenkinsHash_(v) == a && JenkinsHash_<uint64>(v) == a, "hash", "hash function of '%s'", esc(s).c_str());
  CHECK(JenHashCannon(v).raw() == b && JenkinsHash_<uint32>(v) == b, "canonical", "canonical hash of '%s' is %08x, not %08x",
        esc(s).c_str(), JenHashCannon(v).raw(), b);
  CHECK(uint32_t(JenHash3(v)) == l, "lookup3", "lookup3 hash of '%s' (%zu) is %08x, not %08x", esc(s).c_str(), s.size(),
        uint32_t(JenHash3(v)), l);
  CHECK(JenkinsHash3_(v, seed) == lookup3(s, seed), "lookup3 seed", "lookup3 hash of '%s' (%zu) seeded %08x is %08x, not %08x",
        esc(s).c_str(), s.size(), seed, JenkinsHash3_(v, seed), lookup3(s, seed));
  // wrapping and relations
  JenHash h(v), same(a), other(a ^ 1), copy = h;
  CHECK(h == same && !(h != same) && h == a && a == h && !(h != a) && !(a != h) && copy == h, "equal", "'%s'", esc(s).c_str());
  CHECK(h != other && !(h == other) && h != (a ^ 1) && (a ^ 1) != h, "unequal", "'%s'", esc(s).c_str());
  CHECK((h < other) != (h > other) && (h < other) == (other > h) && !(h < same) && !(h > same), "order", "'%s'", esc(s).c_str());
  event("texts");
  if (s.size() > 12 && s.size() % 12 == 0)
    event("whole-blocks");
  if (s.empty())
    event("empty");
  for (unsigned char ch : s)
    if (ch > 127) {
      event("high-bytes");
      break;
    }
  distinct(hashBytes(s.data(), s.size(), 5));
}

MON_SECTION(texts, 40000, 1000000) {
  auto &r = c.rng;
  size_t n = r.chance(1, 20) ? r.below(3000) : r.chance(1, 2) ? r.below(13) : r.below(80);
  std::string s(n, 0);
  int how = r.below(4);
  for (auto &ch : s)
    ch = how == 0 ? char(r.u32()) : how == 1 ? char('a' + r.below(26)) : how == 2 ? char(255 - r.below(3)) : "_aZ09:"[r.below(6)];
  check(s, r.chance(1, 3) ? uint32_t(r.edgy(32)) : r.u32());
  // every byte takes part
  if (n) {
    std::string t = s;
    size_t i = r.below(n);
    t[i] ^= char(1 << r.below(8));
    if (n % 12 == 0 || r.chance(1, 4)) {
      CHECK(lookup3(s, 0) == lookup3(t, 0) || uint32_t(JenHash3(es::string_view(s.data(), n))) != uint32_t(JenHash3(es::string_view(t.data(), n))),
            "byte ignored", "byte %zu of %zu", i, n);
    }
  }
}
// every length and every single byte
MON_SECTION(lengths, 300, 300) {
  size_t n = c.idx;
  for (int k = 0; k < 3; k++) {
    std::string s(n, 0);
    for (auto &ch : s)
      ch = k == 0 ? 0 : k == 1 ? char(0xff) : char(c.rng.u32());
    check(s, k == 0 ? 0 : c.rng.u32());
  }
  if (n < 256)
    check(std::string(1, char(n)), 1);
}
// texts longer than 16 bits can count
MON_SECTION(longest, 10, 60) {
  const size_t n = c.idx < 26 ? 0x10000 - 13 + c.idx : 0x10000 + c.rng.below(200000);
  std::string s(n, 0);
  for (auto &ch : s)
    ch = char(c.rng.u32());
  check(s, c.rng.u32());
  event("long-texts");
}
// hashes of literals made by the compiler are the same as at run time
template <class H, size_t N> static void literal(const char (&s)[N], H compiled) {
  es::string_view v(s, N - 1);
  CHECK(compiled == H(v), "literal", "'%s'", s);
  event("literals");
}
static constexpr JenHash hA("reflector"), hB(""), hC("\xc5\xbe\xff\x80z"), hD("a much longer class<with, template> name 0123456789"), hZ;
static constexpr JenHashCannon cA("reflector"), cB(""), cC("\xc5\xbe\xff\x80z"), cD("a much longer class<with, template> name 0123456789");
static constexpr JenHash3 lA("reflector"), lB(""), lC("\xc5\xbe\xff\x80z"), lD("a much longer class<with, template> name 0123456789"),
    lE("123456789012"), lF("123456789012345678901234");
MON_SECTION(compiled, 8, 8) {
  literal("reflector", hA);
  literal("", hB);
  literal("\xc5\xbe\xff\x80z", hC);
  literal("a much longer class<with, template> name 0123456789", hD);
  literal("reflector", cA);
  literal("", cB);
  literal("\xc5\xbe\xff\x80z", cC);
  literal("a much longer class<with, template> name 0123456789", cD);
  literal("reflector", lA);
  literal("", lB);
  literal("\xc5\xbe\xff\x80z", lC);
  literal("a much longer class<with, template> name 0123456789", lD);
  literal("123456789012", lE);
  literal("123456789012345678901234", lF);
  CHECK(hZ.raw() == 0 && uint32_t(JenHash3()) == 0, "zero", "hash of nothing given");
  eval();
}
// hashes as keys
MON_SECTION(keys, 200, 2000) {
  auto &r = c.rng;
  std::map<JenHash, std::string> m;
  std::map<uint32_t, std::string> ref;
  for (int i = 0; i < 300; i++) {
    std::string s = r.text(1 + r.below(3), "abcXYZ");
    m[JenHash(es::string_view(s.data(), s.size()))] = s;
    ref[oneAtATimeCarry(s)] = s;
  }
  CHECK(m.size() == ref.size(), "keys", "%zu keys, not %zu", m.size(), ref.size());
  for (auto &p : ref) {
    auto f = m.find(JenHash(p.first));
    CHECK(f != m.end() && f->second == p.second, "keys", "key of '%s' not found", p.second.c_str());
  }
  event("keys", ref.size());
}
MON_MAIN
