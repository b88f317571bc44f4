// C04: byte order swapping.
#include "datas/endian.hpp"
#include "datas/matrix44.hpp"
#include "datas/vectors.hpp"
#include "datas/vectors_simd.hpp"
#include "mon.hpp"
#include <algorithm>
#include <memory>
using namespace mon;

static std::string rev(std::string s, size_t el) {
  for (size_t i = 0; i + el <= s.size(); i += el)
    std::reverse(s.begin() + i, s.begin() + i + el);
  return s;
}
template <class T> static std::string raw(const T &v) {
  return std::string((const char *)&v, sizeof(T));
}
template <class T> struct Free {
  void operator()(T *p) const { free((void *)p); }
};
template <class T> static std::unique_ptr<T, Free<T>> rnd(Rng &r, bool flt) {
  std::unique_ptr<T, Free<T>> p((T *)malloc(sizeof(T)));
  std::string b = r.bytes(sizeof(T));
  if (flt) // keep clear of signalling NaNs, which register moves may change
    for (auto &ch : b)
      ch = char(uint8_t(ch) == 0x7f || uint8_t(ch) == 0xff ? 0x11 : ch);
  memcpy((void *)p.get(), b.data(), sizeof(T));
  return p;
}
template <class T> static void one(Rng &r, size_t el, const char *nm, bool flt = false) {
  auto p = rnd<T>(r, flt);
  std::string before = raw(*p);
  bool out = r.chance(1, 2);
  note(nm);
  FByteswapper(*p, out);
  std::string after = raw(*p);
  CHECK(after == rev(before, el), nm, "%s -> %s (element %zu)", hex(before).c_str(),
        hex(after).c_str(), el);
  FByteswapper(*p, r.chance(1, 2));
  CHECK(raw(*p) == before, nm, "twice: %s -> %s", hex(before).c_str(), hex(raw(*p)).c_str());
  distinct(hashStr(before) ^ hashStr(nm));
  event(nm);
}
enum class E16 : uint16 { a };
enum class E64 : uint64 { a };
struct Inner {
  uint32 a;
  uint16 b;
  uint8 c[2];
  void SwapEndian() {
    FByteswapper(a);
    FByteswapper(b);
  }
};
struct Outer {
  Inner i[3];
  uint64 q;
  void SwapEndian() {
    FByteswapper(i);
    FByteswapper(q);
  }
};
struct Dir {
  uint32 calls = 0, lastOut = 2;
  void SwapEndian(bool out) {
    calls++;
    lastOut = out;
  }
};
struct Pack { uint32 a[6]; };

MON_SECTION(scalars, 2000, 100000) {
  auto &r = c.rng;
  one<uint16>(r, 2, "uint16");
  one<int16>(r, 2, "int16");
  one<uint32>(r, 4, "uint32");
  one<int32>(r, 4, "int32");
  one<uint64>(r, 8, "uint64");
  one<int64>(r, 8, "int64");
  one<float>(r, 4, "float", true);
  one<double>(r, 8, "double", true);
  one<E16>(r, 2, "enum16");
  one<E64>(r, 8, "enum64");
  one<uint16[5]>(r, 2, "uint16[5]");
  one<uint32[3]>(r, 4, "uint32[3]");
  one<uint64[2]>(r, 8, "uint64[2]");
  one<float[7]>(r, 4, "float[7]", true);
  one<uint16[300]>(r, 2, "uint16[300]");
  one<int64[70]>(r, 8, "int64[70]");
  one<E64[9]>(r, 8, "enum64[9]");
}
MON_SECTION(all16, 1, 1) {
  for (uint32_t v = 0; v < 65536; v++) {
    uint16 x = uint16(v);
    FByteswapper(x);
    CHECK(x == ((v << 8 | v >> 8) & 0xffff), "all16", "%04x -> %04x", v, x);
  }
  event("uint16-exhaustive", 65536);
}
MON_SECTION(vectors, 1000, 50000) {
  auto &r = c.rng;
  one<Vector2>(r, 4, "Vector2", true);
  one<Vector>(r, 4, "Vector", true);
  one<Vector4>(r, 4, "Vector4", true);
  one<SVector2>(r, 2, "SVector2");
  one<USVector>(r, 2, "USVector");
  one<SVector4>(r, 2, "SVector4");
  one<USVector4>(r, 2, "USVector4");
  one<IVector2>(r, 4, "IVector2");
  one<IVector>(r, 4, "IVector");
  one<UIVector4>(r, 4, "UIVector4");
  one<UCVector4>(r, 1, "UCVector4");
  one<CVector>(r, 1, "CVector");
  one<UCVector2>(r, 1, "UCVector2");
  one<Vector4A16>(r, 4, "Vector4A16", true);
  one<IVector4A16>(r, 4, "IVector4A16");
  one<UIVector4A16>(r, 4, "UIVector4A16");
  one<esMatrix44>(r, 4, "esMatrix44", true);
  one<esMatrix44[3]>(r, 4, "esMatrix44[3]", true);
  one<Vector[5]>(r, 4, "Vector[5]", true);
  one<USVector4[17]>(r, 2, "USVector4[17]");
}
MON_SECTION(aggregate, 1000, 50000) {
  auto &r = c.rng;
  {
    auto p = rnd<Outer>(r, false);
    Outer o;
    memcpy(&o, p.get(), sizeof o);
    FByteswapper(*p);
    bool ok = p->q == __builtin_bswap64(o.q);
    for (int i = 0; i < 3; i++)
      ok = ok && p->i[i].a == __builtin_bswap32(o.i[i].a) && p->i[i].b == __builtin_bswap16(o.i[i].b) &&
           !memcmp(p->i[i].c, o.i[i].c, 2);
    CHECK(ok, "class-swapendian", "%s -> %s", hex(raw(o)).c_str(), hex(raw(*p)).c_str());
    distinct(raw(o));
    event("nested-classes");
  }
  {
    Dir d[4];
    bool out = r.chance(1, 2);
    FByteswapper(d, out);
    for (auto &e : d)
      CHECK(e.calls == 1 && e.lastOut == uint32(out), "class-direction", "calls %u out %u want %d",
            e.calls, e.lastOut, out);
    Dir s;
    FByteswapper(s, out);
    CHECK(s.calls == 1 && s.lastOut == uint32(out), "class-direction-single", "calls %u out %u", s.calls,
          s.lastOut);
    event("directional");
  }
  { // FArraySwapper: every element of an aggregate, for each element width
    auto p = rnd<Pack>(r, false);
    std::string b = raw(*p);
    FArraySwapper<uint32>(*p);
    CHECK(raw(*p) == rev(b, 4), "arrayswapper32", "%s", hex(b).c_str());
    FArraySwapper<uint32>(*p);
    FArraySwapper<uint16>(*p);
    CHECK(raw(*p) == rev(b, 2), "arrayswapper16", "%s", hex(b).c_str());
    FArraySwapper<uint16>(*p);
    FArraySwapper<uint64>(*p);
    CHECK(raw(*p) == rev(b, 8), "arrayswapper64", "%s", hex(b).c_str());
    event("arrayswapper");
  }
}

// Aggregates and arrays of more items than a small counter holds.
template <size_t N> struct Items {
  uint16 v[N];
};
struct One {
  uint32 v;
  void SwapEndian() { FByteswapper(v); }
};
template <size_t N> static void many(Case &c) {
  auto &r = c.rng;
  auto p = rnd<Items<N>>(r, false);
  std::string b = raw(*p);
  FArraySwapper<uint16>(*p);
  CHECK(raw(*p) == rev(b, 2), "arrayswapper-many", "%zu items", N);
  FByteswapper(p->v);
  CHECK(raw(*p) == b, "array-many", "%zu items", N);
  if (N % 4 == 0) {
    FArraySwapper<uint64>(*p);
    CHECK(raw(*p) == rev(b, 8), "arrayswapper-many64", "%zu items", N);
    FArraySwapper<double>(*p);
    CHECK(raw(*p) == b, "arrayswapper-many-double", "%zu items", N);
    struct O {
      One v[(N + 1) / 2];
    };
    FArraySwapper<One>(reinterpret_cast<O &>(*p));
    CHECK(raw(*p) == rev(b, 4), "arrayswapper-many-classes", "%zu items", N);
    FByteswapper(reinterpret_cast<O &>(*p).v);
    CHECK(raw(*p) == b, "array-many-classes", "%zu items", N);
  }
  event("many-items");
  distinct(hex(b.substr(0, 32)) + std::to_string(N));
}
MON_SECTION(many, 20, 200) {
  many<1>(c);
  many<2>(c);
  many<255>(c);
  many<256>(c);
  many<257>(c);
  many<1028>(c);
  many<0x8004>(c);
  many<0x10004>(c);
  many<0x20008>(c);
}
MON_MAIN
