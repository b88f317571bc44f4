// C24: vertex/texel format codecs.
#include "uni/format.hpp"
#include "mon.hpp"
#include <cmath>
#include <cstring>
#include <memory>
using namespace mon;
using uni::DataType;
using uni::FormatCodec;
using uni::FormatDescr;
using uni::FormatType;

struct Layout {
  DataType type;
  const char *name;
  int bits[4];
  bool coarse; // some channels are expanded together with a neighbouring bit
};
static const Layout layouts[] = {
    {DataType::R32G32B32A32, "R32G32B32A32", {32, 32, 32, 32}, false},
    {DataType::R32G32B32, "R32G32B32", {32, 32, 32, 0}, false},
    {DataType::R16G16B16A16, "R16G16B16A16", {16, 16, 16, 16}, false},
    {DataType::R32G32, "R32G32", {32, 32, 0, 0}, false},
    {DataType::R16G16B16, "R16G16B16", {16, 16, 16, 0}, false},
    {DataType::R32, "R32", {32, 0, 0, 0}, false},
    {DataType::R16G16, "R16G16", {16, 16, 0, 0}, false},
    {DataType::R10G10B10A2, "R10G10B10A2", {10, 10, 10, 2}, false},
    {DataType::R11G11B10, "R11G11B10", {11, 11, 10, 0}, true},
    {DataType::R8G8B8A8, "R8G8B8A8", {8, 8, 8, 8}, false},
    {DataType::R24G8, "R24G8", {24, 8, 0, 0}, false},
    {DataType::R8G8B8, "R8G8B8", {8, 8, 8, 0}, false},
    {DataType::R8G8, "R8G8", {8, 8, 0, 0}, false},
    {DataType::R16, "R16", {16, 0, 0, 0}, false},
    {DataType::R5G6B5, "R5G6B5", {5, 6, 5, 0}, true},
    {DataType::R5G5B5A1, "R5G5B5A1", {5, 5, 5, 1}, false},
    {DataType::R8, "R8", {8, 0, 0, 0}, false},
};
static const int numLayouts = sizeof(layouts) / sizeof(*layouts);
static const char *typeNames[] = {"INVALID", "INT", "UINT", "NORM", "UNORM", "FLOAT", "UFLOAT"};

static int sizeOf(const Layout &l) { return (l.bits[0] + l.bits[1] + l.bits[2] + l.bits[3]) / 8; }
static bool isInt(FormatType t) { return t == FormatType::INT || t == FormatType::UINT; }
static bool supported(FormatType t, const Layout &l) {
  switch (t) {
  case FormatType::INT:
  case FormatType::UINT:
  case FormatType::NORM:
  case FormatType::UNORM: return true;
  case FormatType::FLOAT:
    return (l.bits[0] == 32 || l.bits[0] == 16) || l.type == DataType::R11G11B10;
  case FormatType::UFLOAT: return l.type == DataType::R11G11B10;
  default: return false;
  }
}

// the raw channel values, channels packed from the lowest bit of a little endian block
static void channels(const Layout &l, const unsigned char *p, uint32_t (&out)[4]) {
  int at = 0;
  for (int i = 0; i < 4; i++) {
    out[i] = 0;
    for (int b = 0; b < l.bits[i]; b++, at++)
      out[i] |= uint32_t(p[at / 8] >> (at % 8) & 1) << b;
  }
}
static int32_t extend(uint32_t v, int bits) {
  if (!bits)
    return 0;
  return int32_t(v << (32 - bits)) >> (32 - bits);
}
static float smallFloat(uint32_t code, int m, int e, bool sign) {
  const uint32_t mant = code & ((1u << m) - 1), ex = code >> m & ((1u << e) - 1);
  const bool neg = sign && code >> (m + e) & 1;
  double v;
  if (ex == (1u << e) - 1)
    v = mant ? NAN : INFINITY;
  else if (ex)
    v = std::ldexp(double((1u << m) | mant), int(ex) - ((1 << (e - 1)) - 1) - m);
  else
    v = std::ldexp(double(mant), 1 - ((1 << (e - 1)) - 1) - m);
  return float(neg ? -v : v);
}
static bool sameFloat(float a, float b) { return std::isnan(b) ? std::isnan(a) : memcmp(&a, &b, 4) == 0; }

static void judgeInt(FormatType t, const Layout &l, const unsigned char *raw, const IVector4A16 &v, const char *how) {
  uint32_t ch[4];
  channels(l, raw, ch);
  for (int i = 0; i < 4; i++) {
    const int32_t want = t == FormatType::INT ? extend(ch[i], l.bits[i]) : int32_t(ch[i]);
    CHECK(v._arr[i] == want, "integer", "%s %s %s: channel %d of %s is %d, not %d", typeNames[int(t)], l.name, how, i,
          hex(raw, sizeOf(l)).c_str(), v._arr[i], want);
  }
}

static void judgeFloat(FormatType t, const Layout &l, const unsigned char *raw, const Vector4A16 &v, const char *how) {
  uint32_t ch[4];
  channels(l, raw, ch);
  for (int i = 0; i < 4; i++) {
    const int bits = l.bits[i];
    const float got = v._arr[i];
    if (!bits) {
      CHECK(got == 0, "absent channel", "%s %s %s: absent channel %d of %s is %g", typeNames[int(t)], l.name, how, i,
            hex(raw, sizeOf(l)).c_str(), got);
      continue;
    }
    if (t == FormatType::FLOAT || t == FormatType::UFLOAT) {
      float want;
      if (bits == 32)
        memcpy(&want, ch + i, 4);
      else if (bits == 16)
        want = smallFloat(ch[i], 10, 5, true);
      else if (t == FormatType::FLOAT)
        want = smallFloat(ch[i], bits - 6, 5, true);
      else
        want = smallFloat(ch[i], bits - 5, 5, false);
      CHECK(sameFloat(got, want), "float", "%s %s %s: channel %d of %s is %g, not %g", typeNames[int(t)], l.name, how, i,
            hex(raw, sizeOf(l)).c_str(), got, want);
      continue;
    }
    const bool sign = t == FormatType::NORM;
    const double unit = sign ? (bits == 1 ? 1 : double((1u << (bits - 1)) - 1))
                             : bits == 32 ? 4294967295. : double((1u << bits) - 1);
    const double n = sign ? double(extend(ch[i], bits)) : double(ch[i]);
    double want = n / unit;
    double tol = std::fabs(want) * 1e-6 + 1e-9;
    if (l.coarse && (bits == 5 || bits == 10))
      tol = (sign ? 1.01 : .502) / unit;
    double low = want - tol, high = want + tol;
    // the most negative code has no counterpart: it may be its plain quotient, minus one, or between
    if (sign && ch[i] == 1u << (bits - 1)) {
      low = std::min(want, -1.) - tol;
      high = -1 + tol;
      if (bits == 1)
        high = low = -1;
      event("most-negative-codes");
    }
    if (bits == 2 && sign && n == -2)
      low = -2.001;
    CHECK(got >= low && got <= high, "normalised", "%s %s %s: channel %d of %s is %.9g, not %.9g (%.3g)", typeNames[int(t)],
          l.name, how, i, hex(raw, sizeOf(l)).c_str(), got, want, tol);
  }
}

static std::vector<unsigned char> content(Rng &r, const Layout &l, size_t len) {
  std::vector<unsigned char> b(len);
  const int mode = r.below(5);
  for (size_t i = 0; i < len; i++)
    switch (mode) {
    case 0: b[i] = r.u32(); break;
    case 1: b[i] = r.chance(1, 2) ? 0xff : 0; break;
    case 2: b[i] = r.chance(1, 2) ? 0x80 : 0x7f; break;
    case 3: b[i] = 0xff << r.below(9); break;
    default: b[i] = 1u << r.below(8); break;
    }
  return b;
}

// what one codec does with one block of memory
static void oneCodec(Case &c, FormatType t, const Layout &l) {
  Rng &r = c.rng;
  const FormatCodec &codec = FormatCodec::Get({t, l.type});
  const int size = sizeOf(l);
  char tag[64];
  snprintf(tag, sizeof tag, "codec %s %s", typeNames[int(t)], l.name);

  // single values, in memory of exactly the format's size
  for (int k = 0; k < 12; k++) {
    const auto raw = content(r, l, size);
    std::unique_ptr<unsigned char[]> p(new unsigned char[size]);
    memcpy(p.get(), raw.data(), size);
    const char *in = reinterpret_cast<const char *>(p.get());
    if (isInt(t)) {
      IVector4A16 v(77);
      codec.GetValue(v, in);
      judgeInt(t, l, raw.data(), v, "value");
    } else {
      Vector4A16 v(77.f);
      codec.GetValue(v, in);
      judgeFloat(t, l, raw.data(), v, "value");
    }
    CHECK(!memcmp(p.get(), raw.data(), size), "input changed", "%s changed its input", tag);
    event("values");
    distinct(hashBytes(raw.data(), size) * 131 + uint64_t(t) * 64 + uint64_t(l.type));
  }

  // arrays
  for (int k = 0; k < 6; k++) {
    const size_t count = 1 + r.len(40, 2000);
    const size_t stride = r.chance(1, 3) ? 0 : size + r.below(r.chance(1, 2) ? 3 : 40);
    const size_t step = stride ? stride : size;
    const size_t len = step * (count - 1) + size, shift = r.below(4);
    auto raw = content(r, l, len);
    // the block ends where the last value ends
    std::unique_ptr<unsigned char[]> p(new unsigned char[len + shift]);
    memcpy(p.get() + shift, raw.data(), len);
    const char *in = reinterpret_cast<const char *>(p.get() + shift);
    const bool sized = r.chance(1, 2);
    const size_t before = sized ? count : r.below(60);
    if (isInt(t)) {
      FormatCodec::ivec v(before, IVector4A16(3));
      codec.Sample(v, in, sized ? 0 : count, stride);
      CHECK(v.size() == count, "count", "%s: %zu values for %zu", tag, v.size(), count);
      for (size_t i = 0; i < v.size() && i < count; i++)
        judgeInt(t, l, raw.data() + i * step, v[i], sized ? "presized array" : "array");
    } else {
      FormatCodec::fvec v(before, Vector4A16(3.f));
      codec.Sample(v, in, sized ? 0 : count, stride);
      CHECK(v.size() == count, "count", "%s: %zu values for %zu", tag, v.size(), count);
      for (size_t i = 0; i < v.size() && i < count; i++)
        judgeFloat(t, l, raw.data() + i * step, v[i], sized ? "presized array" : "array");
    }
    event(stride == 0 ? "packed-arrays" : "strided-arrays");
  }

  if (c.idx < 2)
    sample(fmt("%s: size %d, random blocks and arrays judged", tag, size));
  // misuse
  std::unique_ptr<char[]> none(new char[1]);
  int thrown = 0;
  const char *what = "nothing";
  const auto throws = [&](const char *name, auto &&fn) {
    thrown = 0;
    what = name;
    try {
      fn();
    } catch (const std::runtime_error &) {
      thrown = 1;
    }
    CHECK(thrown, "misuse", "%s: no error for %s", tag, what);
    event("refusals");
  };
  const size_t shortStride = size > 1 ? 1 + r.below(size - 1) : 0;
  if (isInt(t)) {
    Vector4A16 v(5.f);
    throws("a float value of an integer format", [&] { codec.GetValue(v, none.get()); });
    FormatCodec::fvec a(3, Vector4A16(5.f));
    throws("float values of an integer format", [&] { codec.Sample(a, none.get(), r.below(3), 0); });
    FormatCodec::ivec b(3);
    if (shortStride)
      throws("a short stride", [&] { codec.Sample(b, none.get(), r.below(3), shortStride); });
  } else {
    IVector4A16 v(5);
    throws("an integer value of a float format", [&] { codec.GetValue(v, none.get()); });
    FormatCodec::ivec a(3, IVector4A16(5));
    throws("integer values of a float format", [&] { codec.Sample(a, none.get(), r.below(3), 0); });
    FormatCodec::fvec b(3);
    if (shortStride)
      throws("a short stride", [&] { codec.Sample(b, none.get(), r.below(3), shortStride); });
  }
}

MON_SECTION(codecs, 400, 20000) {
  static const FormatType types[] = {FormatType::INT, FormatType::UINT, FormatType::NORM, FormatType::UNORM, FormatType::FLOAT, FormatType::UFLOAT};
  for (FormatType t : types)
    for (int k = 0; k < numLayouts; k++)
      if (supported(t, layouts[k]))
        oneCodec(c, t, layouts[k]);
}

// more values than 16 bits can count, and blocks of more bytes than that
MON_SECTION(longest, 24, 200) {
  static const FormatType types[] = {FormatType::INT, FormatType::UINT, FormatType::NORM, FormatType::UNORM, FormatType::FLOAT, FormatType::UFLOAT};
  FormatType t;
  const Layout *l;
  do {
    t = types[c.rng.below(6)];
    l = layouts + c.rng.below(numLayouts);
  } while (!supported(t, *l));
  const FormatCodec &codec = FormatCodec::Get({t, l->type});
  const int size = sizeOf(*l);
  const bool wide = c.rng.chance(1, 3);
  const size_t stride = wide ? 0x10000 + c.rng.below(70) : c.rng.chance(1, 2) ? 0 : size + c.rng.below(9);
  const size_t step = stride ? stride : size;
  const size_t count = wide ? 2 + c.rng.below(40) : 0x10000 - 2 + c.rng.below(c.rng.chance(1, 2) ? 5 : 90000);
  const auto raw = content(c.rng, *l, step * (count - 1) + size);
  std::unique_ptr<unsigned char[]> p(new unsigned char[raw.size()]);
  memcpy(p.get(), raw.data(), raw.size());
  const char *in = reinterpret_cast<const char *>(p.get());
  const bool sized = c.rng.chance(1, 3);
  if (isInt(t)) {
    FormatCodec::ivec v(sized ? count : 0, IVector4A16(3));
    codec.Sample(v, in, sized ? 0 : count, stride);
    CHECK(v.size() == count, "count", "codec %s %s: %zu values for %zu", typeNames[int(t)], l->name, v.size(), count);
    for (size_t i = 0; i < v.size() && i < count; i++)
      judgeInt(t, *l, raw.data() + i * step, v[i], "long array");
  } else {
    FormatCodec::fvec v(sized ? count : 0, Vector4A16(3.f));
    codec.Sample(v, in, sized ? 0 : count, stride);
    CHECK(v.size() == count, "count", "codec %s %s: %zu values for %zu", typeNames[int(t)], l->name, v.size(), count);
    for (size_t i = 0; i < v.size() && i < count; i++)
      judgeFloat(t, *l, raw.data() + i * step, v[i], "long array");
  }
  event("long-arrays");
}

// every code of the 8 and 16 bit formats, and of each channel of up to 16 bits in the others
MON_SECTION(allcodes, 64, 64) {
  static const FormatType types[] = {FormatType::INT, FormatType::UINT, FormatType::NORM, FormatType::UNORM, FormatType::FLOAT, FormatType::UFLOAT};
  for (FormatType t : types)
    for (const Layout &l : layouts) {
      if (!supported(t, l))
        continue;
      const FormatCodec &codec = FormatCodec::Get({t, l.type});
      const int size = sizeOf(l);
      for (int chan = 0, at = 0; chan < 4; at += l.bits[chan++]) {
        if (!l.bits[chan])
          continue;
        const int low = l.bits[chan] > 16 ? l.bits[chan] - 16 : 0, codes = 1 << std::min(16, l.bits[chan]);
        const int slice = std::max(codes / 64, 1);
        if (int(c.idx) * slice >= codes)
          continue;
        std::vector<unsigned char> base = content(c.rng, l, size);
        for (int k = c.idx * slice; k < int(c.idx + 1) * slice; k++) {
          std::unique_ptr<unsigned char[]> p(new unsigned char[size]);
          memcpy(p.get(), base.data(), size);
          for (int b = 0; b < l.bits[chan] - low; b++) {
            const int bit = at + low + b;
            p[bit / 8] = (p[bit / 8] & ~(1 << bit % 8)) | (k >> b & 1) << bit % 8;
          }
          const char *in = reinterpret_cast<const char *>(p.get());
          if (isInt(t)) {
            IVector4A16 v(77);
            codec.GetValue(v, in);
            judgeInt(t, l, p.get(), v, "all codes");
          } else {
            Vector4A16 v(77.f);
            codec.GetValue(v, in);
            judgeFloat(t, l, p.get(), v, "all codes");
          }
          event("codes");
        }
      }
    }
}

// combinations that are not offered
MON_SECTION(unknown, 4, 16) {
  for (int t = 0; t < 9; t++)
    for (int d = 0; d < 22; d++) {
      bool known = false;
      for (const Layout &l : layouts)
        known |= int(l.type) == d && t < 7 && supported(FormatType(t), l);
      bool threw = false;
      try {
        FormatCodec::Get({FormatType(t), DataType(d)});
      } catch (const std::out_of_range &) {
        threw = true;
      }
      CHECK(threw != known, "registry", "codec %d/%d: %s", t, d, known ? "refused" : "not refused");
      event(known ? "known-combinations" : "unknown-combinations");
    }
  (void)c;
}
MON_MAIN
