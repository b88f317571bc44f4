// A reflected class with every member kind that has a stored form, its independent member table, and comparison.
#pragma once
#include "refl_print.hpp"
struct IO : ReflectorBase<IO> {
  bool b;
  int8 i8;
  uint8 u8;
  int16 i16;
  uint16 u16;
  int32 i32;
  uint32 u32;
  int64 i64;
  uint64 u64;
  float f32;
  double f64;
  es::Flags<EnBits, uint8> fl8;
  es::Flags<EnBits, uint16> fl16;
  es::Flags<EnBits, uint32> fl32;
  es::Flags<EnBits, uint64> fl64;
  EnA eA;
  EnB eB;
  EnC eC;
  EnD eD;
  Vector2 v2;
  Vector v3;
  Vector4 v4;
  SVector4 sv4;
  UCVector4 ucv4;
  Vector4A16 v4a;
  SubR sub;
  SubDeep deep;
  Bits8 b8;
  Bits16 b16;
  Bits32 b32;
  Bits64 b64;
  std::string str;
  bool ab[3];
  int8 ai8[4];
  uint16 au16[3];
  int32 ai32[2];
  uint64 au64[2];
  float af[3];
  double ad[2];
  es::Flags<EnBits, uint16> afl16[3];
  es::Flags<EnBits, uint8> afl8[2];
  EnB aeB[2];
  EnC aeC[3];
  Vector2 av2[2];
  Vector4A16 av4[2];
  SVector2 asv2[3];
  std::string astr[3];
  SubR asub[3];
  SubDeep adeep[2];
  Bits16 ab16[2];
  Bits8 ab8[3];
  CVector cv3;
  IVector4 iv4;
  IVector4A16 iv4a;
  UIVector4A16 auiv4a[2];
  t_Vector2<double> dv2;
  t_Vector<double> adv3[2];
  t_Vector2<int64> lv2;
  t_Vector4<uint64> ulv4;
  USVector2 ausv2[3];
  std::array<SubR, 2> sub2;
  std::array<EnC, 3> sec;
  es::Flags<EnBits, uint32> afl32[2];
  Bits32 bits32;
  Bits64 abits64[2];
  EnA aeA[2];
  std::array<SVector, 2> sav3;
};
REFLECTOR_CREATE(IO, 1, EXTENDED, (, b), (A, i8, "int_eight"), (, u8), (, i16), (, u16), (, i32), (, u32), (, i64), (, u64),
                 (, f32), (, f64), (, fl8), (, fl16), (, fl32), (, fl64), (, eA), (, eB), (, eC), (, eD), (, v2), (, v3), (, v4),
                 (, sv4), (, ucv4), (, v4a), (, sub), (, deep), (, b8), (, b16), (, b32), (, b64), (, str), (, ab), (, ai8),
                 (, au16), (, ai32), (, au64), (, af), (, ad), (, afl16), (, afl8), (, aeB), (, aeC), (, av2), (, av4),
                 (, asv2), (, astr), (, asub), (, adeep), (, ab16), (, ab8),
                 (, cv3), (, iv4), (, iv4a), (, auiv4a), (, dv2), (, adv3), (, lv2), (, ulv4), (, ausv2), (, sub2), (, sec), (, afl32), (, bits32), (, abits64), (, aeA), (, sav3));
#define M_(x) mem<decltype(IO::x)>(#x, offsetof(IO, x))
inline const std::vector<Mem> &ioMembers() {
  static std::vector<Mem> v{
      M_(b),    M_(i8),   M_(u8),   M_(i16),  M_(u16),  M_(i32), M_(u32),  M_(i64),   M_(u64),  M_(f32), M_(f64),
      M_(fl8),  M_(fl16), M_(fl32), M_(fl64), M_(eA),   M_(eB),  M_(eC),   M_(eD),    M_(v2),   M_(v3),  M_(v4),
      M_(sv4),  M_(ucv4), M_(v4a),  M_(sub),  M_(deep), M_(b8),  M_(b16),  M_(b32),   M_(b64),  M_(str), M_(ab),
      M_(ai8),  M_(au16), M_(ai32), M_(au64), M_(af),   M_(ad),  M_(afl16), M_(afl8), M_(aeB),  M_(aeC), M_(av2),
      M_(av4),  M_(asv2), M_(astr), M_(asub), M_(adeep), M_(ab16), M_(ab8),
      M_(cv3), M_(iv4), M_(iv4a), M_(auiv4a), M_(dv2), M_(adv3), M_(lv2), M_(ulv4), M_(ausv2), M_(sub2), M_(sec), M_(afl32), M_(bits32), M_(abits64), M_(aeA), M_(sav3)};
  return v;
}
#undef M_
inline void ioRegister() {
  refRegister();
  static RegisterReflectedTypes<IO> r;
  (void)r;
}
struct IOBox {
  void *block;
  IO *o;
  explicit IOBox(mon::Rng &r, bool nice = false) {
    ioRegister();
    if (posix_memalign(&block, 16, sizeof(IO)))
      abort();
    std::string noise = r.bytes(sizeof(IO));
    memcpy(block, noise.data(), noise.size());
    o = new (block) IO;
    for (auto &m : ioMembers())
      for (size_t i = 0; i < (m.n ? m.n : 1); i++)
        ObjBox::fillElement(r, m, (char *)block + m.off + i * m.size, true, nice);
    auto bits = [&](uint64 &v) { v &= ~0ull >> 1; };
    (void)bits;
  }
  IOBox(const IOBox &) = delete;
  ~IOBox() {
    o->~IO();
    free(block);
  }
};
inline bool sameF(const char *a, const char *b, size_t n, bool asText) {
  if (!asText)
    return !memcmp(a, b, n);
  return textOfScalar(MK::Float, n, a) == textOfScalar(MK::Float, n, b);
}
inline bool sameSub(const SubR &a, const SubR &b, bool t) {
  return a.sx == b.sx && sameF((const char *)&a.sy, (const char *)&b.sy, 4, t) && !memcmp(a.sz, b.sz, 3);
}
// asText: floats compared at printed precision
inline bool sameItem(const Mem &m, const char *a, const char *b, bool asText) {
  switch (m.kind) {
  case MK::Str: return *(const std::string *)a == *(const std::string *)b;
  case MK::Float: return sameF(a, b, m.size, asText);
  case MK::Vec:
    for (size_t i = 0; i < m.vn; i++)
      if (m.vkind == MK::Float ? !sameF(a + i * m.vsize, b + i * m.vsize, m.vsize, asText)
                               : memcmp(a + i * m.vsize, b + i * m.vsize, m.vsize) != 0)
        return false;
    return true;
  case MK::Class:
    if (!strcmp(m.cls, "SubR"))
      return sameSub(*(const SubR *)a, *(const SubR *)b, asText);
    else {
      auto &x = *(const SubDeep *)a, &y = *(const SubDeep *)b;
      return x.d0 == y.d0 && sameSub(x.inner, y.inner, asText) && sameSub(x.arr[0], y.arr[0], asText) &&
             sameSub(x.arr[1], y.arr[1], asText);
    }
  case MK::Bits:
    if (asText && m.size == 8) // the padding bit is not a member
      return !((loadU(a, 8) ^ loadU(b, 8)) << 1);
    return !memcmp(a, b, m.size);
  default: return !memcmp(a, b, m.size);
  }
}
// first differing member, empty when equal
inline std::string diffIO(const IO &a, const IO &b, bool asText, const std::vector<bool> *skip = nullptr) {
  auto &ms = ioMembers();
  for (size_t k = 0; k < ms.size(); k++) {
    if (skip && (*skip)[k])
      continue;
    const Mem &m = ms[k];
    for (size_t i = 0; i < (m.n ? m.n : 1); i++) {
      const char *x = (const char *)&a + m.off + i * m.size, *y = (const char *)&b + m.off + i * m.size;
      if (!sameItem(m, x, y, asText)) {
        bool kn;
        return mon::fmt("%s[%zu]: %s vs %s", m.name.c_str(), i, mon::esc(textOfElement(m, x, kn)).c_str(),
                        mon::esc(textOfElement(m, y, kn)).c_str());
      }
    }
  }
  return "";
}

REFLECTOR_CREATE(EnLong, ENUM, 2, CLASS, 8, FirstOfTheLongNames, SecondOfTheLongNames, ThirdOfTheLongNames,
                 FourthOfTheLongNames, FifthOfTheLongNames, SixthOfTheLongNames, SeventhOfTheLongNames,
                 EighthOfTheLongNames, NinthOfTheLongNames, TenthOfTheLongNames, EleventhOfTheLongNames,
                 TwelfthOfTheLongNames, ThirteenthOfTheLongNames, FourteenthOfTheLongNames, FifteenthOfTheLongNames,
                 SixteenthOfTheLongNames);
// Arrays longer than a byte can count.
struct LongArr : ReflectorBase<LongArr> {
  uint8 first;
  SubR subs[300];
  uint16 nums[1000];
  int64 wide[260];
  uint8 bytes[5000];
  Vector2 vecs[513];
  Bits16 bits[400];
  EnB ens[257];
  std::string strs[270];
  es::Flags<EnLong, uint16> flags[300];
  bool last;
};
REFLECTOR_CREATE(LongArr, 1, VARNAMES, first, subs, nums, wide, bytes, vecs, bits, ens, strs, flags, last);
inline void longRegister() {
  refRegister();
  static RegisterReflectedTypes<LongArr, EnLong> r;
  (void)r;
}
inline void longFill(mon::Rng &r, LongArr &o) {
  o.first = r.u32(), o.last = r.chance(1, 2);
  for (auto &s : o.subs) {
    s.sx = int32(r.u32()), s.sy = float(r.range(-1000, 1000));
    for (auto &z : s.sz)
      z = r.u32();
  }
  for (auto &n : o.nums)
    n = r.u32();
  for (auto &n : o.wide)
    n = r.edgy(64);
  for (auto &n : o.bytes)
    n = r.u32();
  for (auto &v : o.vecs)
    v = Vector2(float(r.range(-1000, 1000)), float(r.range(-1000, 1000)));
  for (auto &n : o.bits)
    n.value = r.u32();
  for (auto &e : o.ens)
    e = r.chance(1, 2) ? EnB::B1 : EnB::B2;
  for (auto &f : o.flags) {
    const uint16 v = r.chance(1, 20) ? 0xffff : r.u32() & r.u32();
    memcpy(&f, &v, 2);
  }
  for (auto &s : o.strs)
    s = r.text(1 + r.below(20), "abcdefghijklmnopqrstuvwxyz0123456789");
}
inline std::string longDiff(const LongArr &a, const LongArr &b) {
#define A_(x, e)                                                                                                       \
  for (size_t i = 0; i < sizeof(a.x) / sizeof(a.x[0]); i++)                                                            \
    if (!(e))                                                                                                          \
      return mon::fmt(#x "[%zu]", i);
  if (a.first != b.first || a.last != b.last)
    return "plain members";
  A_(subs, sameSub(a.subs[i], b.subs[i], false))
  A_(nums, a.nums[i] == b.nums[i])
  A_(wide, a.wide[i] == b.wide[i])
  A_(bytes, a.bytes[i] == b.bytes[i])
  A_(vecs, a.vecs[i].X == b.vecs[i].X && a.vecs[i].Y == b.vecs[i].Y)
  A_(bits, a.bits[i].value == b.bits[i].value)
  A_(ens, a.ens[i] == b.ens[i])
  A_(flags, !memcmp(&a.flags[i], &b.flags[i], 2))
  A_(strs, a.strs[i] == b.strs[i])
#undef A_
  return "";
}
