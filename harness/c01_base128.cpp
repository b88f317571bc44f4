// C01: base-128 variable length integers.
#include "datas/base_128.hpp"
#include "mon.hpp"
#include <sstream>
using namespace mon;

// Reference codec, written from the format description: little endian groups
// of 7 bits, top bit = "more"; 9th byte (if reached) carries 8 raw bits.
// Signed: the last group of a short form carries 6 bits and a complement flag.
static std::string refU(uint64_t v) {
  std::string r;
  for (int i = 0; i < 8; i++) {
    if (v < 0x80) {
      r += char(v);
      return r;
    }
    r += char((v & 0x7f) | 0x80);
    v >>= 7;
  }
  r += char(v);
  return r;
}
static std::string refS(int64_t sv) {
  std::string r;
  uint64_t m = sv < 0 ? ~uint64_t(sv) : uint64_t(sv);
  if (m < (1ull << 55)) { // short form, up to 8 bytes
    uint64_t v = m;
    while (v >= 0x40) {
      r += char((v & 0x7f) | 0x80);
      v >>= 7;
    }
    r += char(v | (sv < 0 ? 0x40 : 0));
    return r;
  }
  uint64_t raw = uint64_t(sv);
  for (int i = 0; i < 8; i++)
    r += char(((raw >> (7 * i)) & 0x7f) | 0x80);
  r += char(raw >> 56);
  return r;
}
static uint64_t refDecU(const std::string &b, size_t &used) {
  uint64_t v = 0;
  used = 0;
  for (int i = 0; i < 9 && used < b.size(); i++) {
    uint8_t c = uint8_t(b[used++]);
    if (i == 8)
      return v | uint64_t(c) << 56;
    v |= uint64_t(c & 0x7f) << (7 * i);
    if (!(c & 0x80))
      return v;
  }
  return v;
}
static int64_t refDecS(const std::string &b, size_t &used) {
  uint64_t v = 0;
  used = 0;
  for (int i = 0; i < 9 && used < b.size(); i++) {
    uint8_t c = uint8_t(b[used++]);
    if (i == 8)
      return int64_t(v | uint64_t(c) << 56);
    if (!(c & 0x80)) {
      v |= uint64_t(c & 0x3f) << (7 * i);
      return int64_t(c & 0x40 ? ~v : v);
    }
    v |= uint64_t(c & 0x7f) << (7 * i);
  }
  return int64_t(v);
}

static void roundTrip(int64_t sv, uint64_t uv) {
  {
    std::stringstream ss;
    BinWritterRef wr(ss);
    wr.Write(bint128(sv));
    std::string b = ss.str();
    CHECK(b.size() >= 1 && b.size() <= 9, "signed-length",
          "value %lld took %zu bytes %s", (long long)sv, b.size(), hex(b).c_str());
    BinReaderRef rd(ss);
    bint128 got(int64_t(hashStr(b))); // held something before
    rd.Read(got);
    CHECK(int64_t(got) == sv, "signed-roundtrip", "wrote %lld read %lld bytes %s",
          (long long)sv, (long long)int64_t(got), hex(b).c_str());
    CHECK(rd.Tell() == b.size(), "signed-consumed", "value %lld wrote %zu consumed %zu",
          (long long)sv, b.size(), rd.Tell());
    CHECK(b == refS(sv), "signed-encoding", "value %lld encoded %s expected %s",
          (long long)sv, hex(b).c_str(), hex(refS(sv)).c_str());
    distinct(hashStr(b) * 2);
  }
  {
    std::stringstream ss;
    BinWritterRef wr(ss);
    wr.Write(buint128(uv));
    std::string b = ss.str();
    CHECK(b.size() >= 1 && b.size() <= 9, "unsigned-length", "value %llu took %zu bytes",
          (unsigned long long)uv, b.size());
    BinReaderRef rd(ss);
    buint128 got(hashStr(b));
    rd.Read(got);
    CHECK(uint64_t(got) == uv, "unsigned-roundtrip", "wrote %llu read %llu bytes %s",
          (unsigned long long)uv, (unsigned long long)uint64_t(got), hex(b).c_str());
    CHECK(rd.Tell() == b.size(), "unsigned-consumed", "value %llu wrote %zu consumed %zu",
          (unsigned long long)uv, b.size(), rd.Tell());
    CHECK(b == refU(uv), "unsigned-encoding", "value %llu encoded %s expected %s",
          (unsigned long long)uv, hex(b).c_str(), hex(refU(uv)).c_str());
    distinct(hashStr(b) * 2 + 1);
  }
}

// every power of two, +-3, both signs
MON_SECTION(boundaries, 64, 64) {
  uint64_t p = 1ull << c.idx;
  for (int d = -3; d <= 3; d++) {
    uint64_t v = p + uint64_t(int64_t(d));
    roundTrip(int64_t(v), v);
    roundTrip(-int64_t(v & 0x7fffffffffffffffull), ~v);
    roundTrip(int64_t(~v), v ^ 0x8000000000000000ull);
  }
  event("boundary-powers");
}
MON_SECTION(small, 140, 2000) {
  int64_t lo = int64_t(c.idx) * 500 - 35000;
  for (int64_t v = lo; v < lo + 500; v++)
    roundTrip(v, uint64_t(v + 35000));
}
MON_SECTION(random, 400, 20000) {
  for (int i = 0; i < 100; i++) {
    uint64_t v = c.rng.edgy();
    roundTrip(int64_t(v), c.rng.edgy());
    if (!i)
      sample(fmt("signed %lld unsigned-form %s", (long long)v, hex(refU(v)).c_str()));
  }
}
// A mixed stream of values reads back value for value, in order, in either
// byte order setting of the stream, with nothing left over.
MON_SECTION(sequence, 400, 20000) {
  std::stringstream ss;
  BinWritterRef wr(ss);
  bool sw = c.rng.chance(1, 2);
  wr.SwapEndian(sw);
  size_t n = 1 + c.rng.below(60);
  std::vector<int> kinds;
  std::vector<uint64_t> vals;
  for (size_t i = 0; i < n; i++) {
    int k = int(c.rng.below(3));
    uint64_t v = c.rng.edgy();
    kinds.push_back(k);
    if (k == 0)
      wr.Write(bint128(int64_t(v)));
    else if (k == 1)
      wr.Write(buint128(v));
    else {
      v &= 0xffff;
      wr.Write<uint16>(uint16(v));
    }
    vals.push_back(v);
  }
  size_t total = ss.str().size();
  BinReaderRef rd(ss);
  rd.SwapEndian(sw);
  bint128 usedS; // read one number after another
  buint128 usedU;
  for (size_t i = 0; i < n; i++) {
    uint64_t got;
    if (kinds[i] == 0) {
      bint128 fresh, &b = i & 1 ? usedS : fresh;
      rd.Read(b);
      got = uint64_t(int64_t(b));
    } else if (kinds[i] == 1) {
      buint128 fresh, &b = i & 1 ? usedU : fresh;
      rd.Read(b);
      got = uint64_t(b);
    } else {
      uint16 b;
      rd.Read(b);
      got = b;
    }
    CHECKR(got == vals[i], "sequence", "item %zu of %zu kind %d wrote %llx read %llx", i,
           n, kinds[i], (unsigned long long)vals[i], (unsigned long long)got);
  }
  CHECK(rd.Tell() == total, "sequence-leftover", "%zu of %zu", rd.Tell(), total);
  event("sequences");
  distinct(hashStr(ss.str()));
  // containers with varint counts
  std::stringstream s2;
  BinWritterRef w2(s2);
  std::vector<buint128> cont(c.rng.below(300));
  for (auto &e : cont)
    e = buint128(c.rng.edgy());
  w2.WriteContainerWCount<buint128>(cont);
  w2.Write<uint32>(0xfeedface);
  BinReaderRef r2(s2);
  std::vector<buint128> back(c.rng.below(5), buint128(c.rng.u64()));
  r2.ReadContainer<buint128>(back);
  uint32 mark = 0;
  r2.Read(mark);
  bool same = back.size() == cont.size();
  for (size_t i = 0; same && i < back.size(); i++)
    same = back[i].value == cont[i].value;
  CHECK(same && mark == 0xfeedface, "container", "size %zu back %zu mark %x", cont.size(),
        back.size(), mark);
}
// Arbitrary bytes: the decoder agrees with the reference and never consumes
// more than nine bytes.
MON_SECTION(decode, 400, 20000) {
  for (int i = 0; i < 50; i++) {
    std::string b = c.rng.bytes(9 + c.rng.below(4));
    size_t cont = c.rng.below(10);
    for (size_t k = 0; k < cont; k++)
      b[k] = char(b[k] | 0x80);
    for (int kind = 0; kind < 2; kind++) {
      std::stringstream ss(b);
      BinReaderRef rd(ss);
      size_t used;
      uint64_t want, got;
      if (kind) {
        want = refDecU(b, used);
        buint128 v(c.rng.u64());
        got = v.Read(rd);
      } else {
        want = uint64_t(refDecS(b, used));
        bint128 v(int64_t(c.rng.u64()));
        got = uint64_t(v.Read(rd));
      }
      CHECK(got == want, "decode-value", "kind %d bytes %s got %llx want %llx", kind,
            hex(b).c_str(), (unsigned long long)got, (unsigned long long)want);
      CHECK(rd.Tell() == used, "decode-consumed", "kind %d bytes %s consumed %zu want %zu",
            kind, hex(b).c_str(), rd.Tell(), used);
    }
    distinct(hashStr(b));
  }
  event("decoded-arbitrary", 100);
}
// Truncated input: terminates, and the complete groups present are kept.
MON_SECTION(truncated, 200, 5000) {
  uint64_t v = c.rng.edgy();
  std::string b = refU(v | (1ull << 62));
  b.resize(c.rng.below(b.size()));
  uint64_t part = 0;
  for (size_t i = 0; i < b.size(); i++)
    part |= uint64_t(b[i] & 0x7f) << (7 * i);
  std::stringstream ss(b);
  BinReaderRef rd(ss);
  buint128 u(c.rng.u64());
  u.Read(rd);
  CHECK(rd.IsEOF(), "truncated-eof", "not at eof after %zu bytes", b.size());
  uint64_t low = b.empty() ? 0 : (1ull << (7 * b.size())) - 1;
  CHECK((u.value & low) == part, "truncated-prefix", "got %llx want %llx",
        (unsigned long long)u.value, (unsigned long long)part);
  distinct(hashStr(b) + b.size());
  event("truncated");
}
MON_MAIN
