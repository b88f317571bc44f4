// C27: encoders.
#include "datas/encrypt/blowfish2.h"
#include "datas/encrypt/xorenc.hpp"
#include "mon.hpp"
#include <cstring>
#include <memory>
using namespace mon;

/* The reference cipher; its tables are the digits of pi, computed here. */
struct Big { // fixed point, most significant word first, first word is the whole part
  std::vector<uint32_t> w;
  explicit Big(size_t n) : w(n) {}
  void div(uint32_t d) {
    uint64_t rem = 0;
    for (auto &x : w) {
      rem = rem << 32 | x;
      x = uint32_t(rem / d);
      rem %= d;
    }
  }
  void mul(uint32_t m) {
    uint64_t carry = 0;
    for (size_t i = w.size(); i--;) {
      carry += uint64_t(w[i]) * m;
      w[i] = uint32_t(carry);
      carry >>= 32;
    }
  }
  void add(const Big &o, bool minus) {
    int64_t carry = 0;
    for (size_t i = w.size(); i--;) {
      carry += int64_t(w[i]) + (minus ? -int64_t(o.w[i]) : int64_t(o.w[i]));
      w[i] = uint32_t(carry);
      carry >>= 32;
    }
  }
  bool zero() const {
    for (auto x : w)
      if (x)
        return false;
    return true;
  }
};
static Big arctan(uint32_t inv, size_t n) {
  Big sum(n), term(n);
  term.w[0] = 1;
  term.div(inv);
  for (uint32_t k = 1; !term.zero(); k += 2) {
    Big t = term;
    t.div(k);
    sum.add(t, k / 2 % 2);
    term.div(inv);
    term.div(inv);
  }
  return sum;
}
static const std::vector<uint32_t> &piWords() {
  static const std::vector<uint32_t> words = [] {
    const size_t n = 18 + 1024 + 6;
    Big a = arctan(5, n), b = arctan(239, n);
    a.mul(4);
    a.add(b, true);
    a.mul(4);
    return std::vector<uint32_t>(a.w.begin() + 1, a.w.begin() + 1 + 18 + 1024);
  }();
  return words;
}

struct Cipher {
  uint32_t p[18], s[4][256];
  bool reversed; // the other flavour takes the bytes of each word from the lowest one
  uint32_t f(uint32_t x) const {
    if (reversed)
      return ((s[0][x & 255] + s[1][x >> 8 & 255]) ^ s[2][x >> 16 & 255]) + s[3][x >> 24];
    return ((s[0][x >> 24] + s[1][x >> 16 & 255]) ^ s[2][x >> 8 & 255]) + s[3][x & 255];
  }
  void enc(uint32_t &l, uint32_t &r) const {
    for (int i = 0; i < 16; i++) {
      l ^= p[i];
      r ^= f(l);
      std::swap(l, r);
    }
    std::swap(l, r);
    r ^= p[16];
    l ^= p[17];
  }
  explicit Cipher(const std::string &key, bool reversed_ = false) : reversed(reversed_) {
    const auto &pi = piWords();
    for (int i = 0; i < 18; i++) {
      uint32_t k = 0;
      for (int b = 0; b < 4; b++)
        k = k << 8 | (unsigned char)key[(i * 4 + (reversed ? 3 - b : b)) % key.size()];
      p[i] = pi[i] ^ k;
    }
    for (int i = 0; i < 1024; i++)
      s[i / 256][i % 256] = pi[18 + i];
    uint32_t l = 0, r = 0;
    for (int i = 0; i < 18; i += 2) {
      enc(l, r);
      p[i] = l, p[i + 1] = r;
    }
    for (int i = 0; i < 1024; i += 2) {
      enc(l, r);
      s[i / 256][i % 256] = l, s[i / 256][i % 256 + 1] = r;
    }
  }
  uint64_t block(uint64_t v) const {
    uint32_t l = uint32_t(v), r = uint32_t(v >> 32);
    enc(l, r);
    return l | uint64_t(r) << 32;
  }
};

static std::string anyKey(Rng &r) {
  switch (r.below(5)) {
  case 0: return r.text(1 + r.below(16), "abcXYZ019_");
  case 1: return r.bytes(1 + r.below(56));
  case 2: return r.bytes(1 + r.below(3));
  case 3: return r.bytes(57 + r.below(60));
  default: {
    std::string s = r.bytes(1 + r.below(20));
    s[r.below(s.size())] |= '\x80';
    return s;
  }
  }
}
static uint64_t load(const char *p) {
  uint64_t v;
  memcpy(&v, p, 8);
  return v;
}

// the reference image of what each mode makes of the data
static std::string encoded(const Cipher &ci, int mode, uint64_t iv, const std::string &plain) {
  std::string out = plain;
  for (size_t i = 0; i + 8 <= plain.size(); i += 8) {
    const uint64_t v = load(plain.data() + i);
    uint64_t o = 0;
    switch (mode) {
    case 0: o = ci.block(v); break;
    case 1: iv = o = ci.block(v ^ iv); break;
    case 2:
      o = ci.block(v ^ iv);
      iv = o ^ v;
      break;
    case 3: iv = o = v ^ ci.block(iv); break;
    default:
      iv = ci.block(iv);
      o = v ^ iv;
    }
    memcpy(&out[i], &o, 8);
  }
  return out;
}
static const char *modes[] = {"ECB", "CBC", "PCBC", "CFB", "OFB"};

MON_SECTION(blowfish, 300, 30000) {
  Rng &r = c.rng;
  {
    static bool checked = false;
    if (!checked) {
      checked = true;
      uint32_t l = 1, rr = 2;
      Cipher("TESTKEY").enc(l, rr);
      CHECK(l == 0xDF333FD2 && rr == 0x30A71BB4, "reference", "the reference cipher is wrong: %08x %08x", l, rr);
    }
  }
  const std::string key = anyKey(r);
  const bool rev = r.chance(1, 3);
  Cipher ci(key, rev);
  const auto make = [&]() -> std::unique_ptr<BlowfishEncoder> {
    if (rev)
      return std::make_unique<BlowfishEncoder2>();
    return std::make_unique<BlowfishEncoder>();
  };
  const auto setKey = [&](BlowfishEncoder &e, const std::string &k) {
    if (rev)
      static_cast<BlowfishEncoder2 &>(e).SetKey(k.data(), int(k.size()));
    else
      static_cast<IEncryptor &>(e).SetKey(k);
  };
  // one encoder used for many messages, another made for each
  auto enc = make();
  const bool modeFirst = r.chance(1, 2);
  const auto setup = [&](BlowfishEncoder &e, int mode, uint64_t iv, bool how) {
    // the key is given in memory that is gone afterwards
    std::unique_ptr<std::string> k(new std::string(key));
    if (how)
      e.Mode(decltype(BlowfishEncoder::ECB)(mode));
    setKey(e, *k);
    if (!how)
      e.Mode(decltype(BlowfishEncoder::ECB)(mode));
    e.Vector(iv);
    std::fill(k->begin(), k->end(), 'x');
  };
  const int messages = 1 + r.below(6);
  int mode = r.below(5);
  uint64_t iv = r.u64();
  setup(*enc, mode, iv, modeFirst);
  for (int m = 0; m < messages; m++) {
    if (m && r.chance(1, 2)) {
      mode = r.below(5);
      enc->Mode(decltype(BlowfishEncoder::ECB)(mode));
    }
    if (m && r.chance(1, 3)) {
      iv = r.chance(1, 6) ? 0 : r.u64();
      enc->Vector(iv);
    }
    CHECK(enc->Vector() == iv, "vector", "the initial vector changed");
    const size_t size = r.chance(1, 4) ? r.below(9) : r.len(200, 70000), shift = r.below(8);
    std::string plain = r.chance(1, 6) ? std::string(size, '\0') : r.bytes(size);
    std::unique_ptr<char[]> mem(new char[size + shift]);
    char *buf = mem.get() + shift;
    memcpy(buf, plain.data(), size);
    const std::string want = encoded(ci, mode, mode ? iv : 0, plain);
    static_cast<const IEncryptor &>(*enc).Encode(buf, size);
    CHECK(!memcmp(buf, want.data(), size), "encode", "%s with a key of %zu bytes: message %d of %zu bytes is %s, not %s", modes[mode],
          key.size(), m, size, hex(buf, size).c_str(), hex(want.data(), size).c_str());
    memcpy(buf, want.data(), size);
    const auto other = make();
    const bool fresh = r.chance(1, 2);
    if (fresh)
      setup(*other, mode, iv, r.chance(1, 2));
    (fresh ? *other : *enc).Decode(buf, size);
    CHECK(!memcmp(buf, plain.data(), size), "decode", "%s with a key of %zu bytes: message %d of %zu bytes decodes to %s, not %s", modes[mode],
          key.size(), m, size, hex(buf, size).c_str(), hex(plain.data(), size).c_str());
    CHECK(enc->Vector() == iv, "vector", "the initial vector changed");
    event(modes[mode]);
    event(rev ? "reversed" : "standard");
    event(size % 8 ? "messages-with-rest" : "messages-of-blocks");
    event(fresh ? "other-decoder" : "same-decoder");
    distinct(hashBytes(key.data(), key.size()) ^ hashBytes(plain.data(), plain.size()) * 5 + mode);
  }
  for (unsigned char b : key)
    if (b >= 0x80) {
      event("high-key-bytes");
      break;
    }
  // a new key replaces the old one completely
  const std::string key2 = anyKey(r);
  setKey(*enc, key2);
  uint64_t b = r.u64(), was = b;
  enc->EncodeECB(reinterpret_cast<char *>(&b), 8);
  CHECK(b == Cipher(key2, rev).block(was), "second key", "block %016llx encodes differently after a change of key", (unsigned long long)was);
  enc->DecodeECB(reinterpret_cast<char *>(&b), 8);
  CHECK(b == was, "second key", "block does not decode");
  event("second-keys");
  if (r.chance(1, 10)) {
    // no key at all is refused and keeps the old one
    try {
      setKey(*enc, "");
      CHECK(false, "empty key", "an empty key is accepted");
    } catch (const std::exception &) {
    }
    enc->EncodeECB(reinterpret_cast<char *>(&b), 8);
    CHECK(b == Cipher(key2, rev).block(was), "empty key", "a refused key changed the encoder");
    event("empty-keys");
  }
}

// a vector that SetKey made itself: what was encoded decodes with the same encoder
MON_SECTION(ownvector, 100, 5000) {
  Rng &r = c.rng;
  const int mode = 1 + r.below(4);
  BlowfishEncoder e;
  e.Mode(decltype(BlowfishEncoder::ECB)(mode));
  const std::string key = anyKey(r);
  e.SetKey(key);
  const uint64_t iv = e.Vector();
  const std::string plain = r.bytes(r.len(100, 70000));
  std::string buf = plain;
  e.Encode(&buf[0], buf.size());
  CHECK(buf == encoded(Cipher(key), mode, iv, plain), "encode", "%s with its own vector", modes[mode]);
  e.Decode(&buf[0], buf.size());
  CHECK(buf == plain && e.Vector() == iv, "decode", "%s with its own vector", modes[mode]);
  event("own-vectors");
  distinct(hashBytes(plain.data(), plain.size()));
}

MON_SECTION(xorenc, 400, 40000) {
  Rng &r = c.rng;
  XOREncoder e;
  std::string key;
  const int steps = 1 + r.below(8);
  for (int s = 0; s < steps; s++) {
    if (r.chance(2, 3)) {
      key = r.chance(1, 8) ? std::string() : r.bytes(1 + r.len(40, 3000));
      std::unique_ptr<std::string> k(new std::string(key));
      static_cast<IEncryptor &>(e).SetKey(*k);
      std::fill(k->begin(), k->end(), 'x');
      event(key.empty() ? "xor-empty-keys" : "xor-keys");
    }
    const size_t size = r.len(100, 70000);
    const std::string plain = r.bytes(size);
    std::unique_ptr<char[]> mem(new char[size]);
    memcpy(mem.get(), plain.data(), size);
    e.Encode(mem.get(), size);
    for (size_t i = 0; i < size; i++) {
      const char want = key.empty() ? plain[i] : char(plain[i] ^ key[i % key.size()]);
      if (mem[i] != want) {
        CHECK(false, "xor", "byte %zu of %zu with a key of %zu bytes is %02x, not %02x", i, size, key.size(), (unsigned char)mem[i],
              (unsigned char)want);
        break;
      }
    }
    e.Decode(mem.get(), size);
    CHECK(!memcmp(mem.get(), plain.data(), size), "xor decode", "%zu bytes with a key of %zu bytes do not decode", size, key.size());
    event("xor-messages");
    distinct(hashBytes(plain.data(), size) + key.size());
  }
}
MON_MAIN
