// Reflected classes used by C07-C15 with a hand written description of every
// member (kind, offset, element layout) that shares nothing with the
// reflection tables under test.
#pragma once
#include "datas/bitfield.hpp"
#include "datas/endian.hpp"
#include "datas/flags.hpp"
#include "datas/master_printer.hpp"
#include "datas/refl_array.hpp"
#include "datas/reflector.hpp"
#include "datas/vectors_simd.hpp"
#include "mon.hpp"
#include <array>
#include <cmath>
#include <limits>

REFLECTOR_CREATE(EnA, ENUM, 1, CLASS, A0, A1, A2 = 7);
REFLECTOR_CREATE(EnB, ENUM, 2, CLASS, 8, B0, B1, B2 = 200);
REFLECTOR_CREATE(EnC, ENUM, 2, CLASS, 16, C7 = 7, C16586 = 16586, C8bcd = 0x8bcd);
REFLECTOR_CREATE(EnD, ENUM, 2, CLASS, 64, D0, D1 = 0x123456789abcdef0ULL, D2);
REFLECTOR_CREATE(EnBits, ENUM, 2, CLASS, 8, F0, F1, F2, F3, F5 = 5, F7 = 7, F8, F15 = 15, F16, F30 = 30, F31, F32, F33,
                 F47 = 47, F62 = 62, F63);
REFLECTOR_CREATE(EnUnreg, ENUM, 1, CLASS, U0, U1);

struct SubR {
  int32 sx;
  float sy;
  uint8 sz[3];
  void ReflectorTag();
  void SwapEndian() {
    FByteswapper(sx);
    FByteswapper(sy);
  }
};
REFLECTOR_CREATE(SubR, 1, VARNAMES, sx, sy, sz);

struct SubDeep {
  uint16 d0;
  SubR inner;
  SubR arr[2];
  void ReflectorTag();
  void SwapEndian() {
    FByteswapper(d0);
    FByteswapper(inner);
    FByteswapper(arr);
  }
};
REFLECTOR_CREATE(SubDeep, 1, VARNAMES, d0, inner, arr);

struct SubUnreg {
  int32 ux;
  void ReflectorTag();
};
REFLECTOR_CREATE(SubUnreg, 1, VARNAMES, ux);

using bm8_0 = BitMemberDecl<0, 3>;
using bm8_1 = BitMemberDecl<1, 4>;
using bm8_2 = BitMemberDecl<2, 1>;
using Bits8 = BitFieldType<uint8, bm8_0, bm8_1, bm8_2>;
REFLECTOR_CREATE(Bits8, BITFIELD, 1, VARNAMES, bm8_0, bm8_1, bm8_2);
using bm16_0 = BitMemberDecl<0, 2>;
using bm16_1 = BitMemberDecl<1, 5>;
using bm16_2 = BitMemberDecl<2, 9>;
using Bits16 = BitFieldType<uint16, bm16_0, bm16_1, bm16_2>;
REFLECTOR_CREATE(Bits16, BITFIELD, 1, VARNAMES, bm16_0, bm16_1, bm16_2);
using bm32_0 = BitMemberDecl<0, 31>;
using bm32_1 = BitMemberDecl<1, 1>;
using Bits32 = BitFieldType<uint32, bm32_0, bm32_1>;
REFLECTOR_CREATE(Bits32, BITFIELD, 1, VARNAMES, bm32_0, bm32_1);
using bm64_0 = BitMemberDecl<0, 20>;
using bm64_1 = BitMemberDecl<1, 1>;
using bm64_2 = BitMemberDecl<2, 33>;
using bm64_3 = BitMemberDecl<3, 9>;
using Bits64 = BitFieldType<uint64, bm64_0, bm64_1, bm64_2, bm64_3>;
REFLECTOR_CREATE(Bits64, BITFIELD, 1, VARNAMES, bm64_0, bm64_1, bm64_2, bm64_3);

#define P_(n, k) uint8 pad_##n[k];
struct RC : ReflectorBase<RC> {
  P_(0, 5) bool b;
  P_(1, 3) int8 i8;
  P_(2, 1) uint8 u8;
  P_(3, 7) int16 i16;
  P_(4, 5) uint16 u16;
  P_(5, 3) int32 i32;
  P_(6, 4) uint32 u32;
  P_(7, 9) int64 i64;
  P_(8, 8) uint64 u64;
  P_(9, 8) float f32;
  P_(10, 4) double f64;
  P_(11, 8) es::Flags<EnBits, uint8> fl8;
  P_(12, 9) es::Flags<EnBits, uint16> fl16;
  P_(13, 9) es::Flags<EnBits, uint32> fl32;
  P_(14, 9) es::Flags<EnBits, uint64> fl64;
  P_(15, 9) EnA eA;
  P_(16, 9) EnB eB;
  P_(17, 9) EnC eC;
  P_(18, 9) EnD eD;
  P_(19, 9) Vector2 v2;
  P_(20, 9) Vector v3;
  P_(21, 9) Vector4 v4;
  P_(22, 9) SVector2 sv2;
  P_(23, 9) UCVector4 ucv4;
  P_(24, 9) Vector4A16 v4a;
  P_(25, 9) SubR sub;
  P_(26, 9) Bits16 bits;
  P_(27, 9) std::string str;
  P_(28, 9) const char *cstr;
  P_(29, 9) bool ab[4];
  P_(30, 9) int8 ai8[3];
  P_(31, 9) uint16 au16[5];
  P_(32, 9) std::array<int32, 2> ai32;
  P_(33, 9) uint64 au64[3];
  P_(34, 9) float af[4];
  P_(35, 9) double ad[2];
  P_(36, 9) es::Flags<EnBits, uint8> afl8[3];
  P_(37, 9) es::Flags<EnBits, uint64> afl64[2];
  P_(38, 9) EnB aeB[4];
  P_(39, 9) EnD aeD[2];
  P_(40, 9) Vector2 av2[3];
  P_(41, 9) Vector av3[2];
  P_(42, 9) SVector4 asv4[2];
  P_(43, 9) std::string astr[2];
  P_(44, 9) SubR asub[3];
  P_(45, 9) SubDeep deep;
  P_(46, 9) Bits8 abits[2];
  P_(47, 9) EnUnreg eU;
  P_(48, 9) SubUnreg subU;
  P_(49, 9) Vector4A16 av4a[2];
  P_(50, 5) CVector cv3;
  P_(51, 9) IVector4 iv4;
  P_(52, 5) IVector4A16 iv4a;
  P_(53, 9) UIVector4A16 auiv4a[2];
  P_(54, 5) t_Vector2<double> dv2;
  P_(55, 9) t_Vector<double> adv3[2];
  P_(56, 5) t_Vector2<int64> lv2;
  P_(57, 9) t_Vector4<uint64> ulv4;
  P_(58, 5) USVector2 ausv2[3];
  P_(59, 9) std::array<SubR, 2> sub2;
  P_(60, 5) std::array<EnC, 3> sec;
  P_(61, 9) es::Flags<EnBits, uint32> afl32[2];
  P_(62, 5) Bits32 bits32;
  P_(63, 9) Bits64 abits64[2];
  P_(64, 5) EnA aeA[2];
  P_(65, 9) std::array<SVector, 2> sav3;
  P_(66, 9) uint8 lby[300];
  P_(67, 9) float lfl[20];
  P_(68, 9) EnB len[20];
  P_(69, 9) es::Flags<EnBits, uint16> lfg[18];
  P_(70, 9) Vector2 lvc[17];
  P_(71, 9) SubR lsb[19];
  P_(72, 9) bool lbo[34];
  P_(73, 9) int64 lin[260];
  P_(74, 16)
};
#undef P_
REFLECTOR_CREATE(RC, 1, EXTENDED, (, b), (A, i8, "int_eight"), (D, u8, "Size is%bytes"),
                 (AD, i16, "int_sixteen", "Just a text"), (, u16), (, i32), (A, u32, "uint_32"), (, i64), (, u64),
                 (AD, f32, "float_32", "Weight%kg"), (, f64), (, fl8), (, fl16), (, fl32), (, fl64), (, eA), (, eB),
                 (A, eC, "enum_c"), (, eD), (, v2), (A, v3, "vector three"), (, v4), (, sv2), (, ucv4), (, v4a),
                 (A, sub, "sub_class"), (, bits), (A, str, "string_"), (, cstr), (, ab), (, ai8), (A, au16, "array_u16"),
                 (, ai32), (, au64), (, af), (, ad), (, afl8), (, afl64), (, aeB), (, aeD), (, av2), (, av3), (, asv4),
                 (, astr), (A, asub, "sub_array"), (, deep), (, abits), (, eU), (, subU), (, av4a),
                 (, cv3), (, iv4), (, iv4a), (, auiv4a), (, dv2), (, adv3), (, lv2), (, ulv4), (, ausv2), (, sub2), (, sec), (, afl32), (, bits32), (, abits64), (, aeA), (, sav3),
                 (, lby), (, lfl), (, len), (, lfg), (, lvc), (, lsb), (, lbo), (, lin));

enum class MK { Bool, Int, UInt, Float, Enum, Flags, Vec, Str, CStr, Class, Bits };
struct EnumDef {
  const char *name;
  bool registered;
  std::vector<std::pair<const char *, uint64>> items;
};
inline const EnumDef &edA() {
  static EnumDef d{"EnA", true, {{"A0", 0}, {"A1", 1}, {"A2", 7}}};
  return d;
}
inline const EnumDef &edB() {
  static EnumDef d{"EnB", true, {{"B0", 0}, {"B1", 1}, {"B2", 200}}};
  return d;
}
inline const EnumDef &edC() {
  static EnumDef d{"EnC", true, {{"C7", 7}, {"C16586", 16586}, {"C8bcd", 0x8bcd}}};
  return d;
}
inline const EnumDef &edD() {
  static EnumDef d{"EnD", true, {{"D0", 0}, {"D1", 0x123456789abcdef0ULL}, {"D2", 0x123456789abcdef1ULL}}};
  return d;
}
inline const EnumDef &edBits() {
  static EnumDef d{"EnBits", true, {{"F0", 0},   {"F1", 1},   {"F2", 2},   {"F3", 3},   {"F5", 5},   {"F7", 7},
                                    {"F8", 8},   {"F15", 15}, {"F16", 16}, {"F30", 30}, {"F31", 31}, {"F32", 32},
                                    {"F33", 33}, {"F47", 47}, {"F62", 62}, {"F63", 63}}};
  return d;
}
inline const EnumDef &edU() {
  static EnumDef d{"EnUnreg", false, {{"U0", 0}, {"U1", 1}}};
  return d;
}

struct Mem {
  std::string name, alias, d1, d2;
  bool hasAlias = false, hasDesc = false;
  size_t off = 0, size = 0; // size of one element
  size_t n = 0;             // array items (0: not an array)
  MK kind = MK::Bool;
  size_t vn = 0, vsize = 0; // vector components
  MK vkind = MK::Float;
  const EnumDef *en = nullptr;
  const char *cls = nullptr;
  bool clsRegistered = true;
};
template <class T> struct Desc;
#define D_(T, K)                                                                                                       \
  template <> struct Desc<T> {                                                                                         \
    static void fill(Mem &m) { m.kind = MK::K; }                                                                       \
  };
D_(bool, Bool)
D_(int8, Int)
D_(int16, Int)
D_(int32, Int)
D_(int64, Int)
D_(uint8, UInt)
D_(uint16, UInt)
D_(uint32, UInt)
D_(uint64, UInt)
D_(float, Float)
D_(double, Float)
D_(std::string, Str)
D_(const char *, CStr)
#undef D_
#define D_(T, DEF)                                                                                                     \
  template <> struct Desc<T> {                                                                                         \
    static void fill(Mem &m) {                                                                                         \
      m.kind = MK::Enum;                                                                                               \
      m.en = &DEF();                                                                                                   \
    }                                                                                                                  \
  };
D_(EnA, edA)
D_(EnB, edB)
D_(EnC, edC)
D_(EnD, edD)
D_(EnUnreg, edU)
#undef D_
template <class S> struct Desc<es::Flags<EnBits, S>> {
  static void fill(Mem &m) {
    m.kind = MK::Flags;
    m.en = &edBits();
  }
};
#define D_(T, V, N, K)                                                                                                 \
  template <> struct Desc<T> {                                                                                         \
    static void fill(Mem &m) {                                                                                         \
      m.kind = MK::Vec;                                                                                                \
      m.vn = N;                                                                                                        \
      m.vsize = sizeof(V);                                                                                             \
      m.vkind = MK::K;                                                                                                 \
    }                                                                                                                  \
  };
D_(Vector2, float, 2, Float)
D_(Vector, float, 3, Float)
D_(Vector4, float, 4, Float)
D_(Vector4A16, float, 4, Float)
D_(SVector2, int16, 2, Int)
D_(SVector4, int16, 4, Int)
D_(UCVector4, uint8, 4, UInt)
D_(CVector, int8, 3, Int)
D_(IVector4, int32, 4, Int)
D_(IVector4A16, int32, 4, Int)
D_(UIVector4A16, uint32, 4, UInt)
D_(t_Vector2<double>, double, 2, Float)
D_(t_Vector<double>, double, 3, Float)
D_(t_Vector2<int64>, int64, 2, Int)
D_(t_Vector4<uint64>, uint64, 4, UInt)
D_(USVector2, uint16, 2, UInt)
D_(SVector, int16, 3, Int)
#undef D_
#define D_(T, K, R)                                                                                                    \
  template <> struct Desc<T> {                                                                                         \
    static void fill(Mem &m) {                                                                                         \
      m.kind = MK::K;                                                                                                  \
      m.cls = #T;                                                                                                      \
      m.clsRegistered = R;                                                                                             \
    }                                                                                                                  \
  };
D_(SubR, Class, true)
D_(SubDeep, Class, true)
D_(SubUnreg, Class, false)
D_(Bits8, Bits, true)
D_(Bits16, Bits, true)
D_(Bits32, Bits, true)
D_(Bits64, Bits, true)
#undef D_
template <class T, size_t N> struct Desc<T[N]> {
  static void fill(Mem &m) {
    Desc<T>::fill(m);
    m.n = N;
  }
};
template <class T, size_t N> struct Desc<std::array<T, N>> : Desc<T[N]> {};

template <class T> inline Mem mem(const char *nm, size_t off, const char *alias = nullptr, const char *d1 = nullptr, const char *d2 = "") {
  Mem m;
  m.name = nm;
  m.off = off;
  Desc<T>::fill(m);
  m.size = m.n ? sizeof(T) / m.n : sizeof(T);
  if (alias) {
    m.alias = alias;
    m.hasAlias = true;
  }
  if (d1) {
    m.d1 = d1;
    m.d2 = d2;
    m.hasDesc = true;
  }
  return m;
}
#define M_(x, ...) mem<decltype(RC::x)>(#x, offsetof(RC, x), ##__VA_ARGS__)
inline const std::vector<Mem> &rcMembers() {
  static std::vector<Mem> v{M_(b), M_(i8, "int_eight"), M_(u8, nullptr, "Size is", "bytes"),
                            M_(i16, "int_sixteen", "Just a text"), M_(u16), M_(i32), M_(u32, "uint_32"), M_(i64),
                            M_(u64), M_(f32, "float_32", "Weight", "kg"), M_(f64), M_(fl8), M_(fl16), M_(fl32), M_(fl64),
                            M_(eA), M_(eB), M_(eC, "enum_c"), M_(eD), M_(v2), M_(v3, "vector three"), M_(v4), M_(sv2),
                            M_(ucv4), M_(v4a), M_(sub, "sub_class"), M_(bits), M_(str, "string_"), M_(cstr), M_(ab),
                            M_(ai8), M_(au16, "array_u16"), M_(ai32), M_(au64), M_(af), M_(ad), M_(afl8), M_(afl64),
                            M_(aeB), M_(aeD), M_(av2), M_(av3), M_(asv4), M_(astr), M_(asub, "sub_array"), M_(deep),
                            M_(abits), M_(eU), M_(subU), M_(av4a),
                            M_(cv3), M_(iv4), M_(iv4a), M_(auiv4a), M_(dv2), M_(adv3), M_(lv2), M_(ulv4), M_(ausv2), M_(sub2), M_(sec), M_(afl32), M_(bits32), M_(abits64), M_(aeA), M_(sav3),
                            M_(lby), M_(lfl), M_(len), M_(lfg), M_(lvc), M_(lsb), M_(lbo), M_(lin)};
  return v;
}
#undef M_
inline void refRegister() {
  static RegisterReflectedTypes<EnA, EnB, EnC, EnD, EnBits, SubR, SubDeep, Bits8, Bits16, Bits32, Bits64, RC> r;
  (void)r;
}

// Reflected object in a heap block of exactly its size, all plain bytes random.
struct ObjBox {
  void *block;
  RC *o;
  static const char *cs(size_t i) {
    static const char *s[] = {"", "c string", "another one", "with, comma", "\xc3\xa9\xc3\xa9", "\x01\x02 control"};
    return s[i % 6];
  }
  static uint64 rndEnum(mon::Rng &r, const EnumDef &d) { return d.items[r.below(d.items.size())].second; }
  static void fillElement(mon::Rng &r, const Mem &m, char *p, bool stringsToo, bool nice) {
    switch (m.kind) {
    case MK::Bool:
      *p = char(r.below(2));
      break;
    case MK::Int:
    case MK::UInt: {
      uint64 v = r.edgy(unsigned(m.size * 8));
      memcpy(p, &v, m.size);
      break;
    }
    case MK::Float:
      fillFloat(r, p, m.size, nice);
      break;
    case MK::Enum: {
      uint64 v = rndEnum(r, *m.en);
      memcpy(p, &v, m.size);
      break;
    }
    case MK::Flags: {
      uint64 v = 0;
      if (nice) {
        for (auto &i : m.en->items)
          if (i.second < m.size * 8 && r.chance(1, 3))
            v |= 1ull << i.second;
      } else
        v = r.edgy(unsigned(m.size * 8));
      memcpy(p, &v, m.size);
      break;
    }
    case MK::Vec:
      for (size_t i = 0; i < m.vn; i++)
        if (m.vkind == MK::Float)
          fillFloat(r, p + i * m.vsize, m.vsize, nice);
        else {
          uint64 v = r.edgy(unsigned(m.vsize * 8));
          memcpy(p + i * m.vsize, &v, m.vsize);
        }
      break;
    case MK::Str:
      if (stringsToo)
        *reinterpret_cast<std::string *>(p) = r.text(r.len(40, 70000));
      break;
    case MK::CStr:
      *reinterpret_cast<const char **>(p) = cs(r.below(6));
      break;
    case MK::Class:
      if (!strcmp(m.cls, "SubR"))
        fillSub(r, p, nice);
      else if (!strcmp(m.cls, "SubDeep")) {
        auto *d = reinterpret_cast<SubDeep *>(p);
        d->d0 = uint16(r.u64());
        fillSub(r, (char *)&d->inner, nice);
        fillSub(r, (char *)&d->arr[0], nice);
        fillSub(r, (char *)&d->arr[1], nice);
      } else
        *reinterpret_cast<int32 *>(p) = int32(r.u64());
      break;
    case MK::Bits: {
      uint64 v = r.u64();
      memcpy(p, &v, m.size);
      break;
    }
    }
  }
  static void fillSub(mon::Rng &r, char *p, bool nice) {
    auto *s = reinterpret_cast<SubR *>(p);
    s->sx = int32(r.edgy(32));
    fillFloat(r, (char *)&s->sy, 4, nice);
    for (auto &z : s->sz)
      z = uint8(r.u64());
  }
  // nice: never subnormal or NaN
  static void fillFloat(mon::Rng &r, char *p, size_t size, bool nice) {
    if (size == 4) {
      float v;
      uint32 b;
      do {
        switch (r.below(4)) {
        case 0: v = float(r.range(-1000, 1000)); break;
        case 1: v = float(r.uniform(-1, 1)); break;
        default: b = uint32(r.edgy(32)); memcpy(&v, &b, 4);
        }
      } while (nice && (std::isnan(v) || std::fpclassify(v) == FP_SUBNORMAL));
      memcpy(p, &v, 4);
    } else {
      double v;
      uint64 b;
      do {
        switch (r.below(4)) {
        case 0: v = double(r.range(-1000, 1000)); break;
        case 1: v = r.uniform(-1, 1); break;
        default: b = r.edgy(64); memcpy(&v, &b, 8);
        }
      } while (nice && (std::isnan(v) || std::fpclassify(v) == FP_SUBNORMAL));
      memcpy(p, &v, 8);
    }
  }
  explicit ObjBox(mon::Rng &r, bool nice = false) {
    refRegister();
    if (posix_memalign(&block, 16, sizeof(RC)))
      abort();
    std::string noise = r.bytes(sizeof(RC));
    memcpy(block, noise.data(), noise.size());
    // fill plain members before construction so nothing is read uninitialised
    o = new (block) RC;
    for (auto &m : rcMembers())
      for (size_t i = 0; i < (m.n ? m.n : 1); i++)
        fillElement(r, m, (char *)block + m.off + i * m.size, true, nice);
  }
  ObjBox(const ObjBox &) = delete;
  ~ObjBox() {
    o->~RC();
    free(block);
  }
  std::string raw() const { return std::string((const char *)block, sizeof(RC)); }
  std::vector<std::string> strings() const { return {o->str, o->astr[0], o->astr[1]}; }
};

struct ReflectedInstanceFriend : ReflectedInstance {
  void *monInst() const { return instance; }
  const reflectorStatic *monRefl() const { return rfStatic; }
};
inline void *instOf(const ReflectedInstance &i) { return static_cast<const ReflectedInstanceFriend &>(i).monInst(); }
inline const reflectorStatic *reflOf(const ReflectedInstance &i) {
  return static_cast<const ReflectedInstanceFriend &>(i).monRefl();
}
inline bool present(const ReflectedInstance &i) { return instOf(i) != nullptr; }

// Swallow reflector's console messages; counts them.
inline uint64_t &printedMessages() {
  static uint64_t n;
  return n;
}
inline void countPrint(const TCHAR *) { printedMessages()++; }
inline void quietPrinter() {
  static bool once = (printer.AddPrinterFunction(countPrint, false), true);
  (void)once;
}

inline const char *errName(Reflector::ErrorType e) {
  static const char *n[] = {"None",        "SignMismatch", "OutOfRange", "InvalidFormat", "InvalidDestination",
                            "EmptyInput", "ShortInput"};
  return n[int(e)];
}
