// C09: text produced for a member is the documented form of its value and sets an equal value.
#include "refl_fixture.hpp"
#include "refl_print.hpp"
using namespace mon;
using ET = Reflector::ErrorType;

REFLECTOR_CREATE(EnNeg, ENUM, 0, N0 = -3, N1, N2 = 5);
REFLECTOR_CREATE(EnN8, ENUM, 1, 8, M0 = 250, M1, M2 = 3);
struct Small : ReflectorBase<Small> {
  EnNeg neg;
  EnNeg negs[3];
  EnN8 n8;
};
REFLECTOR_CREATE(Small, 1, VARNAMES, neg, negs, n8);

static bool roundTrippable(const Mem &m) {
  return m.kind != MK::Class && m.kind != MK::Bits && m.kind != MK::CStr && !(m.en && !m.en->registered);
}
static void randomText(Rng &r, ObjBox &b) {
  // strings with anything a member of string type may hold
  auto s = [&](bool arr) {
    std::string v = r.chance(1, 2) ? r.text(r.len(40, 70000)) : r.bytes(r.len(30, 3000));
    if (arr) {
      std::string o;
      for (char ch : v)
        if (!strchr(",[]{}()\"", ch))
          o += ch;
      v = o;
      if (v.empty())
        v = "x";
    }
    size_t f = 0;
    while (f < v.size() && isspace((unsigned char)v[f]))
      f++;
    v.erase(0, f);
    if (arr && v.empty())
      v = "y";
    return v;
  };
  b.o->str = s(false);
  b.o->astr[0] = s(true);
  b.o->astr[1] = s(true);
}

MON_SECTION(print, 20000, 400000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox box(r, r.chance(1, 2));
  randomText(r, box);
  auto &ms = rcMembers();
  for (int k = 0; k < 12; k++) {
    size_t id = r.below(ms.size());
    const Mem &m = ms[id];
    const char *p = (const char *)box.block + m.off;
    note(m.name);
    bool known = true;
    std::string want = textOf(m, p, known);
    if (!known)
      continue; // flags outside of the enumeration
    std::string got = box.o->GetReflectedValue(id);
    CHECK(got == want, "text", "%s: '%s' want '%s'", m.name.c_str(), esc(got).c_str(), esc(want).c_str());
    distinct(m.name + got);
    if (k == 0)
      sample(m.name + " = " + esc(got).substr(0, 80));
    event("printed");
    std::string h = box.o->GetReflectedValue(JenHash(es::string_view(m.name)));
    CHECK(h == want, "text-by-name", "%s: '%s' want '%s'", m.name.c_str(), esc(h).c_str(), esc(want).c_str());
    size_t n = m.n ? m.n : m.kind == MK::Vec ? m.vn : m.kind == MK::Flags ? m.size * 8 : 0;
    for (size_t i = 0; i < n + 2; i++) {
      std::string w;
      known = true;
      if (i < n) {
        if (m.n)
          w = textOfElement(m, p + m.size * i, known);
        else if (m.kind == MK::Vec)
          w = textOfScalar(m.vkind, m.vsize, p + m.vsize * i);
        else
          w = (loadU(p, m.size) >> i) & 1 ? "true" : "false";
      }
      std::string g = box.o->GetReflectedValue(id, i);
      if (known)
        CHECK(g == w, "text-item", "%s[%zu]: '%s' want '%s'", m.name.c_str(), i, esc(g).c_str(), esc(w).c_str());
      event("items");
      if (m.n && (m.kind == MK::Vec || m.kind == MK::Flags)) {
        size_t en = m.kind == MK::Vec ? m.vn : m.size * 8;
        for (size_t j = 0; j < en + 1; j++) {
          std::string e;
          if (i < n && j < en)
            e = m.kind == MK::Vec ? textOfScalar(m.vkind, m.vsize, p + m.size * i + m.vsize * j)
                                  : (loadU(p + m.size * i, m.size) >> j) & 1 ? "true" : "false";
          std::string ge = box.o->GetReflectedValue(id, i, j);
          CHECK(ge == e, "text-element", "%s[%zu][%zu]: '%s' want '%s'", m.name.c_str(), i, j, esc(ge).c_str(), esc(e).c_str());
        }
        event("elements");
      }
    }
    if (!n)
      CHECK(box.o->GetReflectedValue(id, size_t(0)).empty(), "text-not-indexable", "%s[0]", m.name.c_str());
  }
  CHECK(box.o->GetReflectedValue(ms.size() + r.below(500)).empty(), "text-unknown", "past the end");
}

// float bits may differ below printed precision
static void sameValue(const Mem &m, const char *a, const char *b, const std::string &txt, const std::string &ctx) {
  if (m.kind == MK::Float || (m.kind == MK::Vec && m.vkind == MK::Float)) {
    bool k;
    std::string again = textOf(m, b, k);
    CHECK(again == txt, "float-round", "%s: '%s' reads back as '%s'", ctx.c_str(), txt.c_str(), again.c_str());
    return;
  }
  size_t n = m.n ? m.n : 1;
  if (m.kind == MK::Str) {
    for (size_t i = 0; i < n; i++) {
      auto &x = *(const std::string *)(a + i * m.size), &y = *(const std::string *)(b + i * m.size);
      CHECK(x == y, "string-round", "%s: '%s' became '%s'", ctx.c_str(), esc(x).c_str(), esc(y).c_str());
    }
    return;
  }
  CHECK(!memcmp(a, b, n * m.size), "round", "%s '%s': %s became %s", ctx.c_str(), txt.c_str(), hex(a, n * m.size).c_str(),
        hex(b, n * m.size).c_str());
}
static bool tiny(const Mem &m, const char *p) {
  // %g may round the smallest normal numbers down to a subnormal
  bool t = false;
  size_t n = (m.n ? m.n : 1) * (m.kind == MK::Vec ? m.vn : 1), sz = m.kind == MK::Vec ? m.vsize : m.size;
  if (m.kind != MK::Float && !(m.kind == MK::Vec && m.vkind == MK::Float))
    return false;
  for (size_t i = 0; i < (m.n ? m.n : 1); i++)
    for (size_t j = 0; j < n / (m.n ? m.n : 1); j++) {
      const char *q = p + i * m.size + j * sz;
      double v = sz == 4 ? double(*(const float *)q) : *(const double *)q;
      double lim = sz == 4 ? 1.18e-38 : 2.23e-308;
      t = t || (v != 0 && std::fabs(v) < lim);
    }
  return t;
}

MON_SECTION(round, 20000, 400000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox a(r, true), b(r, true);
  randomText(r, a);
  auto &ms = rcMembers();
  for (int k = 0; k < 12; k++) {
    size_t id = r.below(ms.size());
    const Mem &m = ms[id];
    if (!roundTrippable(m))
      continue;
    const char *pa = (const char *)a.block + m.off, *pb = (const char *)b.block + m.off;
    std::string txt = a.o->GetReflectedValue(id);
    std::string ctx = m.name;
    note(m.name + "=" + txt);
    distinct(m.name + txt);
    int how = int(r.below(3));
    if (how == 0 || !m.n) {
      Exact x(txt);
      ET e = b.o->SetReflectedValue(id, es::string_view(x.p, x.n));
      if (!tiny(m, pa))
        CHECK(e == ET::None, "round-code", "%s = '%s' -> %s", ctx.c_str(), esc(txt).c_str(), errName(e));
      sameValue(m, pa, pb, txt, ctx);
      event("whole");
    } else {
      for (size_t i = 0; i < m.n; i++) {
        bool elems = how == 2 && m.kind == MK::Vec;
        if (elems)
          for (size_t j = 0; j < m.vn; j++) {
            std::string t = a.o->GetReflectedValue(id, i, j);
            ET e = b.o->SetReflectedValue(id, t, i, j);
            if (!tiny(m, pa))
              CHECK(e == ET::None, "round-code", "%s[%zu][%zu] = '%s' -> %s", ctx.c_str(), i, j, t.c_str(), errName(e));
            event("by-element");
          }
        else {
          std::string t = a.o->GetReflectedValue(id, i);
          ET e = b.o->SetReflectedValue(id, t, i);
          if (!tiny(m, pa))
            CHECK(e == ET::None, "round-code", "%s[%zu] = '%s' -> %s", ctx.c_str(), i, esc(t).c_str(), errName(e));
          event("by-item");
        }
      }
      sameValue(m, pa, pb, txt, ctx);
    }
  }
}

template <class B> static void bits(Case &c, size_t n, const char *nm) {
  refRegister();
  quietPrinter();
  B a, b;
  a.value = decltype(a.value)(c.rng.u64());
  b.value = decltype(b.value)(c.rng.u64());
  ReflectedInstance ia(GetReflectedClass<B>(), &a), ib(GetReflectedClass<B>(), &b);
  ReflectorPureWrap wa(ia), wb(ib);
  for (size_t i = 0; i < n; i++) {
    std::string t = wa.GetReflectedValue(i);
    ET e = wb.SetReflectedValue(i, t);
    CHECK(e == ET::None && wb.GetReflectedValue(i) == t, "bits-round", "%s.%zu = %s -> %s, %s", nm, i, t.c_str(),
          wb.GetReflectedValue(i).c_str(), errName(e));
  }
  static const uint64 used = sizeof(B) == 8 ? ~0ull >> 1 : ~0ull;
  CHECK((a.value & used) == (b.value & used), "bits-value", "%s %llx became %llx", nm, (unsigned long long)a.value, (unsigned long long)b.value);
  distinct(hashBytes(&a, sizeof a));
  event("bitfields");
}
MON_SECTION(bitfields, 8000, 200000) {
  switch (c.idx % 4) {
  case 0: return bits<Bits8>(c, 3, "Bits8");
  case 1: return bits<Bits16>(c, 3, "Bits16");
  case 2: return bits<Bits32>(c, 2, "Bits32");
  default: return bits<Bits64>(c, 4, "Bits64");
  }
}
// every enumerator, including negative and implicit ones
MON_SECTION(enums, 27, 27) {
  static RegisterReflectedTypes<EnNeg, EnN8, Small> reg;
  (void)reg;
  quietPrinter();
  static const EnNeg nv[] = {N0, N1, N2};
  static const char *nn[] = {"N0", "N1", "N2"};
  static const EnN8 mv[] = {M0, M1, M2};
  static const char *mn[] = {"M0", "M1", "M2"};
  size_t i = c.idx % 3, j = c.idx / 3 % 3, k = c.idx / 9 % 3;
  Small s, t;
  memset((void *)&t.neg, 0, sizeof t.neg);
  s.neg = nv[i];
  s.negs[0] = nv[j];
  s.negs[1] = nv[k];
  s.negs[2] = nv[i];
  s.n8 = mv[j];
  CHECK(s.GetReflectedValue(size_t(0)) == nn[i], "enum-text", "%s prints '%s'", nn[i], s.GetReflectedValue(size_t(0)).c_str());
  CHECK(s.GetReflectedValue(size_t(2)) == mn[j], "enum-text", "%s prints '%s'", mn[j], s.GetReflectedValue(size_t(2)).c_str());
  for (size_t m = 0; m < 3; m++)
    CHECK(t.SetReflectedValue(m, s.GetReflectedValue(m)) == ET::None, "enum-set", "member %zu '%s'", m, s.GetReflectedValue(m).c_str());
  CHECK(t.neg == s.neg && !memcmp(t.negs, s.negs, sizeof t.negs) && t.n8 == s.n8, "enum-round", "case %zu %zu %zu", i, j, k);
  event("enumerators");
  distinct(c.idx);
}
// numbers in long fields and flags in long arrays
using lb_0 = BitMemberDecl<0, 60>;
using lb_1 = BitMemberDecl<1, 4>;
using Bits60 = BitFieldType<int64, lb_0, lb_1>;
REFLECTOR_CREATE(Bits60, BITFIELD, 1, VARNAMES, lb_0, lb_1);
using lc_0 = BitMemberDecl<0, 7>;
using lc_1 = BitMemberDecl<1, 57>;
using Bits57 = BitFieldType<int64, lc_0, lc_1>;
REFLECTOR_CREATE(Bits57, BITFIELD, 1, VARNAMES, lc_0, lc_1);
using ld_0 = BitMemberDecl<0, 31>;
using ld_1 = BitMemberDecl<1, 32>;
using ld_2 = BitMemberDecl<2, 1>;
using Bits32s = BitFieldType<int64, ld_0, ld_1, ld_2>;
REFLECTOR_CREATE(Bits32s, BITFIELD, 1, VARNAMES, ld_0, ld_1, ld_2);
using le_0 = BitMemberDecl<0, 24>;
using le_1 = BitMemberDecl<1, 8>;
using Bits24 = BitFieldType<int32, le_0, le_1>;
REFLECTOR_CREATE(Bits24, BITFIELD, 1, VARNAMES, le_0, le_1);
using lf_0 = BitMemberDecl<0, 62>;
using lf_1 = BitMemberDecl<1, 2>;
using UBits62 = BitFieldType<uint64, lf_0, lf_1>;
REFLECTOR_CREATE(UBits62, BITFIELD, 1, VARNAMES, lf_0, lf_1);
template <class B> static void wideBits(Rng &r, std::vector<unsigned> w, const char *nm) {
  const bool sig = std::is_signed<decltype(B::value)>::value;
  B b{}, to{};
  uint64 raw = 0;
  unsigned pos = 0;
  for (auto n : w) {
    raw |= (r.edgy(n) & ((1ull << n) - 1)) << pos;
    pos += n;
  }
  b.value = decltype(b.value)(raw);
  ReflectedInstance ib(GetReflectedClass<B>(), &b), it(GetReflectedClass<B>(), &to);
  ReflectorPureWrap ob(ib), ot(it);
  pos = 0;
  for (size_t i = 0; i < w.size(); pos += w[i++]) {
    const uint64 mask = (1ull << w[i]) - 1, v = (raw >> pos) & mask;
    const std::string want = sig && v >> (w[i] - 1) ? std::to_string(int64(v | ~mask)) : std::to_string(v);
    const std::string got = ob.GetReflectedValue(i);
    CHECK(got == want, "wide-bits", "%s.%zu reads %s, not %s", nm, i, got.c_str(), want.c_str());
    CHECK(ot.SetReflectedValue(i, got) == ET::None, "wide-bits-set", "%s.%zu = %s refused", nm, i, got.c_str());
  }
  CHECK(to.value == b.value, "wide-bits-equal", "%s: %llx set as %llx", nm, (unsigned long long)b.value, (unsigned long long)to.value);
  distinct(fmt("%s %llx", nm, (unsigned long long)raw));
}
MON_SECTION(widebits, 5000, 100000) {
  refRegister();
  quietPrinter();
  static RegisterReflectedTypes<Bits60, Bits57, Bits32s, Bits24, UBits62> reg;
  wideBits<Bits60>(c.rng, {60, 4}, "Bits60");
  wideBits<Bits57>(c.rng, {7, 57}, "Bits57");
  wideBits<Bits32s>(c.rng, {31, 32, 1}, "Bits32s");
  wideBits<Bits24>(c.rng, {24, 8}, "Bits24");
  wideBits<UBits62>(c.rng, {62, 2}, "UBits62");
  event("wide-bits");
}

REFLECTOR_CREATE(EnIn, ENUM, 2, CLASS, 8, I0, I1, I2, I3, I4, I5, I6, I7, I8, I9, I10, I11, I12, I13, I14, I15);
struct LongFlags : ReflectorBase<LongFlags> {
  es::Flags<EnIn, uint16> two[700];
  es::Flags<EnIn, uint8> one[400];
  es::Flags<EnIn, uint64> eight[300];
  Vector4 vecs[300];
  uint16 nums[1500];
};
REFLECTOR_CREATE(LongFlags, 1, VARNAMES, two, one, eight, vecs, nums);
MON_SECTION(longarrays, 20, 300) {
  auto &r = c.rng;
  refRegister();
  quietPrinter();
  static RegisterReflectedTypes<EnIn, LongFlags> reg;
  std::unique_ptr<LongFlags> o(new LongFlags()), b(new LongFlags());
  auto fill = [&](void *p, size_t n) {
    std::string s = r.bytes(n);
    memcpy(p, s.data(), n);
  };
  fill(o->two, sizeof o->two), fill(o->one, sizeof o->one);
  for (auto &e : o->eight) {
    uint64 v = r.u32() & 0xffff;
    memcpy(&e, &v, 8);
  }
  for (auto &v : o->vecs)
    v = Vector4(r.below(9999), -float(r.below(99)), r.below(7), r.below(3) * 0.5f);
  fill(o->nums, sizeof o->nums);
  auto at = [](const void *p, size_t size, size_t i) {
    uint64 v = 0;
    memcpy(&v, (const char *)p + size * i, size);
    return v;
  };
  struct {
    const void *p;
    size_t size, n;
  } fl[] = {{o->two, 2, 700}, {o->one, 1, 400}, {o->eight, 8, 300}};
  ReflectorWrap<LongFlags> ro(*o), rb(*b);
  for (size_t m = 0; m < 3; m++)
    for (size_t i = 0; i < fl[m].n; i++) {
      const uint64 v = at(fl[m].p, fl[m].size, i);
      std::string want;
      for (size_t e = 0; e < fl[m].size * 8; e++) {
        const bool on = v >> e & 1;
        const std::string got = ro.GetReflectedValue(m, i, e);
        CHECK(got == (on ? "true" : "false"), "long-flag", "member %zu item %zu bit %zu: '%s' for %llx", m, i, e, got.c_str(), (unsigned long long)v);
        if (e < 16 && on)
          want += (want.empty() ? "I" : " | I") + std::to_string(e);
      }
      std::string got = ro.GetReflectedValue(m, i);
      if (v)
        CHECK(rb.SetReflectedValue(m, got, i) == ET::None, "long-flags-set", "member %zu item %zu = '%s'", m, i, got.c_str());
      if (!v)
        want = "NULL";
      CHECK(got == want, "long-flags", "member %zu item %zu: '%s', not '%s'", m, i, got.c_str(), want.c_str());
    }
  for (size_t i = 0; i < 300; i++)
    for (size_t e = 0; e < 4; e++) {
      const std::string got = ro.GetReflectedValue(3, i, e), want = textOfScalar(MK::Float, 4, (const char *)&o->vecs[i] + e * 4);
      CHECK(got == want, "long-vector", "item %zu element %zu: '%s', not '%s'", i, e, got.c_str(), want.c_str());
      CHECK(rb.SetReflectedValue(3, got, i, e) == ET::None, "long-vector-set", "item %zu element %zu", i, e);
    }
  for (size_t i = 0; i < 1500; i++) {
    const std::string got = ro.GetReflectedValue(4, i);
    CHECK(got == std::to_string(o->nums[i]), "long-number", "item %zu: '%s', not %u", i, got.c_str(), o->nums[i]);
    CHECK(rb.SetReflectedValue(4, got, i) == ET::None, "long-number-set", "item %zu", i);
  }
  CHECK(!memcmp(o.get(), b.get(), sizeof(LongFlags)), "long-equal", "objects differ after setting every element");
  std::unique_ptr<LongFlags> w(new LongFlags());
  ReflectorWrap<LongFlags> rw(*w);
  for (size_t m = 3; m < 5; m++)
    CHECK(rw.SetReflectedValue(m, ro.GetReflectedValue(m)) == ET::None, "long-whole-set", "member %zu", m);
  CHECK(!memcmp(o->vecs, w->vecs, sizeof o->vecs) && !memcmp(o->nums, w->nums, sizeof o->nums), "long-whole", "arrays differ after being set whole");
  distinct(hashBytes((const char *)o->two, sizeof o->two));
  event("long-arrays");
}
MON_MAIN
