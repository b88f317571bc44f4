// C21: small float codecs.
#include "datas/float.hpp"
#include "mon.hpp"
#include <cmath>
#include <cstring>
using namespace mon;

static uint32_t bitsOf(float f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  return u;
}
static float floatOf(uint32_t u) {
  float f;
  memcpy(&f, &u, 4);
  return f;
}

template <int M, int E, bool S> struct Ref {
  static constexpr uint32_t mant = (1u << M) - 1, expo = (1u << E) - 1, codes = 1u << (M + E + S), top = 1u << (M + E);
  static bool isNan(uint32_t c) { return (c >> M & expo) == expo && (c & mant); }
  static bool isInf(uint32_t c) { return (c >> M & expo) == expo && !(c & mant); }
  // magnitude of a code, infinity as the next power of two
  static double magnitude(uint32_t c) {
    int e = int(c >> M & expo), bias = (1 << (E - 1)) - 1;
    return e ? std::ldexp(double(1u << M | (c & mant)), e - bias - M) : std::ldexp(double(c & mant), 1 - bias - M);
  }
  static float decode(uint32_t c) {
    float m = isNan(c) ? NAN : isInf(c) ? INFINITY : float(magnitude(c));
    return c & top ? -m : m;
  }
  static bool same(uint32_t c, float f) { return isNan(c) ? std::isnan(f) : bitsOf(f) == bitsOf(decode(c)); }
};

template <int M, int E, bool S> static void decodeAll(Case &c, const char *name) {
  using R = Ref<M, E, S>;
  using F = esFloat<M, E, S>;
  // a slice of all codes
  const uint32_t slices = 16, from = R::codes / slices * (c.idx % slices), to = from + R::codes / slices;
  for (uint32_t k = from; k < to; k++) {
    const uint32_t other[3] = {uint32_t(c.rng.below(R::codes)), uint32_t(c.rng.below(R::codes)), k ^ 1};
    const int lane = k % 4;
    uint32_t v[4];
    for (int i = 0, o = 0; i < 4; i++)
      v[i] = i == lane ? k : other[o++];
    float f = F::ToFloat(k);
    CHECK(R::same(k, f), "decode", "%s: code %x decodes to %g (%08x), not %g", name, k, f, bitsOf(f), R::decode(k));
    const Vector4A16 dec = F::ToVector4(IVector4A16(v[0], v[1], v[2], v[3]));
    for (int i = 0; i < 4; i++)
      CHECK(R::same(v[i], dec._arr[i]), "vector decode", "%s: code %x in lane %d decodes to %g, not %g", name, v[i], i,
            dec._arr[i], R::decode(v[i]));
    // and back
    uint32_t b = uint32_t(F::FromFloat(R::decode(k)));
    CHECK(R::isNan(k) ? R::isNan(b) && b < R::codes : b == k, "encode", "%s: value %g of code %x encodes to %x", name, R::decode(k), k, b);
    const IVector4A16 enc = F::FromVector4(Vector4A16(R::decode(v[0]), R::decode(v[1]), R::decode(v[2]), R::decode(v[3])));
    for (int i = 0; i < 4; i++)
      CHECK(R::isNan(v[i]) ? R::isNan(enc._arr[i]) && uint32_t(enc._arr[i]) < R::codes : uint32_t(enc._arr[i]) == v[i],
            "vector encode", "%s: value %g of code %x in lane %d encodes to %x", name, R::decode(v[i]), v[i], i, enc._arr[i]);
    if (R::isNan(k))
      event("nan-codes");
    else if (!(k >> M & R::expo))
      event("denormal-codes");
    else
      event("normal-codes");
    distinct(uint64_t(k) << 20 | M << 12 | E << 4 | S);
  }
}

static float anyFloat(Rng &r, int M, int E, bool S) {
  uint32_t u;
  const int bias = (1 << (E - 1)) - 1;
  switch (r.below(6)) {
  case 0: u = r.u32(); break; // any bits
  case 1: {                   // about the limits
    static const int at[] = {0, 1, -1};
    double v = std::ldexp(1.0, r.chance(1, 2) ? 1 - bias : bias + 1) * (1 + at[r.below(3)] * std::ldexp(1.0, -int(r.below(24))));
    u = bitsOf(float(v));
    break;
  }
  case 2: u = bitsOf(float(std::ldexp(r.unit() * 2, 1 - bias - int(r.below(M + 3))))); break; // denormals
  case 3: u = bitsOf(float(r.unit() * 2)); break;
  case 4: u = uint32_t(r.edgy(32)); break;
  default: u = bitsOf(float(std::ldexp(1 + r.unit(), int(r.below(2 * bias + 4)) - bias - 2)));
  }
  if (r.chance(1, 3))
    u ^= 0x80000000u;
  if (!S)
    u &= 0x7fffffff;
  return floatOf(u);
}

template <int M, int E, bool S> static void encodeAny(Case &c, const char *name) {
  using R = Ref<M, E, S>;
  using F = esFloat<M, E, S>;
  for (int n = 0; n < 64; n++) {
    float in[4];
    for (auto &f : in)
      f = anyFloat(c.rng, M, E, S);
    const IVector4A16 vec = F::FromVector4(Vector4A16(in[0], in[1], in[2], in[3]));
    for (int i = 0; i < 4; i++) {
      const float f = in[i];
      const uint32_t k = uint32_t(F::FromFloat(f));
      const std::string ctx = fmt("%s: %.9g (%08x) encodes to %x", name, f, bitsOf(f), k);
      CHECK(k < R::codes, "code size", "%s", ctx.c_str());
      CHECK(std::isnan(f) ? R::isNan(k) && R::isNan(vec._arr[i]) : uint32_t(vec._arr[i]) == k, "vector encode",
            "%s, as vector to %x", ctx.c_str(), vec._arr[i]);
      if (std::isnan(f)) {
        CHECK(R::isNan(k), "nan", "%s", ctx.c_str());
        event("nan");
        continue;
      }
      CHECK(!R::isNan(k), "nan", "%s", ctx.c_str());
      if (S)
        CHECK(bool(k & R::top) == std::signbit(f), "sign", "%s", ctx.c_str());
      const uint32_t mag = k & (R::top - 1);
      const double a = std::fabs(double(f)), v = R::magnitude(mag);
      // nothing lies between a number and its code
      bool near = v == a || (v < a ? R::isInf(mag) || R::magnitude(mag + 1) > a : R::magnitude(mag - 1) < a);
      if (R::isInf(mag)) {
        near = near || a >= v;
        event("overflow");
      }
      CHECK(near, "encode any", "%s, which is %.9g", ctx.c_str(), v);
      event(v == a ? "exact" : "inexact");
    }
  }
}

#define CODECS(X) X(10, 5, true) X(6, 5, false) X(5, 5, false) X(5, 5, true) X(7, 8, true) X(9, 6, true) X(3, 4, true) X(2, 5, true) X(10, 5, false) X(12, 3, true)
MON_SECTION(codes, 160, 640) {
  int k = c.idx / 16 % 10;
#define X(M, E, S) \
  if (k-- == 0)    \
    return decodeAll<M, E, S>(c, "float<" #M "," #E "," #S ">");
  CODECS(X)
#undef X
}
MON_SECTION(numbers, 4000, 80000) {
  int k = c.idx % 10;
#define X(M, E, S) \
  if (k-- == 0)    \
    return encodeAny<M, E, S>(c, "float<" #M "," #E "," #S ">");
  CODECS(X)
#undef X
}
// packed 11 11 10 bits
MON_SECTION(packed, 4000, 80000) {
  using A = Ref<6, 5, false>;
  using B = Ref<5, 5, false>;
  for (int n = 0; n < 32; n++) {
    VectorR11G11B10_UFLOAT p{c.rng.chance(1, 4) ? uint32_t(c.rng.edgy(32)) : c.rng.u32()};
    const uint32_t x = p.data & 0x7ff, y = p.data >> 11 & 0x7ff, z = p.data >> 22;
    const Vector4A16 v = p;
    CHECK(A::same(x, v.X) && A::same(y, v.Y) && B::same(z, v.Z) && v.W == 0, "packed", "%08x decodes to %g %g %g %g, not %g %g %g 0",
          p.data, v.X, v.Y, v.Z, v.W, A::decode(x), A::decode(y), B::decode(z));
    event("packed");
    distinct(p.data);
  }
}
MON_MAIN
