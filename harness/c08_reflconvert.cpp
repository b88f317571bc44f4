// C08: text to member conversion: exact value when representable, clamped and reported otherwise.
#include "refl_text.hpp"
#include <cerrno>
using namespace mon;
// bit fields over signed storage: their members are signed numbers
using sb8_0 = BitMemberDecl<0, 3>;
using sb8_1 = BitMemberDecl<1, 1>;
using sb8_2 = BitMemberDecl<2, 4>;
using SBits8 = BitFieldType<int8, sb8_0, sb8_1, sb8_2>;
REFLECTOR_CREATE(SBits8, BITFIELD, 1, VARNAMES, sb8_0, sb8_1, sb8_2);
using sb16_0 = BitMemberDecl<0, 7>;
using sb16_1 = BitMemberDecl<1, 9>;
using SBits16 = BitFieldType<int16, sb16_0, sb16_1>;
REFLECTOR_CREATE(SBits16, BITFIELD, 1, VARNAMES, sb16_0, sb16_1);
using sb32_0 = BitMemberDecl<0, 1>;
using sb32_1 = BitMemberDecl<1, 31>;
using SBits32 = BitFieldType<int32, sb32_0, sb32_1>;
REFLECTOR_CREATE(SBits32, BITFIELD, 1, VARNAMES, sb32_0, sb32_1);
using sb64_0 = BitMemberDecl<0, 20>;
using sb64_1 = BitMemberDecl<1, 2>;
using sb64_2 = BitMemberDecl<2, 33>;
using SBits64 = BitFieldType<int64, sb64_0, sb64_1, sb64_2>;
REFLECTOR_CREATE(SBits64, BITFIELD, 1, VARNAMES, sb64_0, sb64_1, sb64_2);
using sbw_0 = BitMemberDecl<0, 63>;
using sbw_1 = BitMemberDecl<1, 1>;
using SWide = BitFieldType<int64, sbw_0, sbw_1>;
REFLECTOR_CREATE(SWide, BITFIELD, 1, VARNAMES, sbw_0, sbw_1);
using ubw_0 = BitMemberDecl<0, 1>;
using ubw_1 = BitMemberDecl<1, 63>;
using UWide = BitFieldType<uint64, ubw_0, ubw_1>;
REFLECTOR_CREATE(UWide, BITFIELD, 1, VARNAMES, ubw_0, ubw_1);
using ET = Reflector::ErrorType;
typedef unsigned __int128 u128;
typedef __int128 i128;

struct Parsed {
  bool ok = false, neg = false;
  u128 mag = 0; // saturating
};
static Parsed parseInt(const std::string &raw) {
  size_t i = 0;
  while (i < raw.size() && (raw[i] == ' ' || raw[i] == '\t'))
    i++;
  std::string s = raw.substr(i);
  Parsed p;
  bool hexa = !s.compare(0, 2, "0x") || !s.compare(0, 3, "-0x");
  i = 0;
  if (i < s.size() && (s[i] == '-' || s[i] == '+'))
    p.neg = s[i++] == '-';
  auto val = [&](char ch) -> int {
    if (ch >= '0' && ch <= '9')
      return ch - '0';
    if (hexa && ch >= 'a' && ch <= 'f')
      return ch - 'a' + 10;
    if (hexa && ch >= 'A' && ch <= 'F')
      return ch - 'A' + 10;
    return -1;
  };
  if (hexa && i + 2 < s.size() && val(s[i + 2]) >= 0)
    i += 2; // else only the leading zero is the number
  const u128 cap = u128(1) << 100;
  for (; i < s.size() && val(s[i]) >= 0; i++) {
    p.ok = true;
    p.mag = p.mag * (hexa ? 16 : 10) + u128(val(s[i]));
    if (p.mag > cap)
      p.mag = cap;
  }
  return p;
}
struct Want {
  ET e = ET::None;
  uint64 bits = 0;
  bool write = true;
};
static Want wantInt(const std::string &t, unsigned nbits, bool isSigned) {
  Parsed p = parseInt(t);
  Want w;
  if (!p.ok) {
    w.e = ET::InvalidFormat;
    w.write = false;
    return w;
  }
  uint64 mask = nbits == 64 ? ~0ull : (1ull << nbits) - 1;
  if (isSigned) {
    i128 v = p.neg ? -i128(p.mag) : i128(p.mag);
    i128 mx = (i128(1) << (nbits - 1)) - 1, mn = -mx - 1;
    if (v > mx || v < mn) {
      w.e = ET::OutOfRange;
      v = p.neg ? mn : mx;
    }
    w.bits = uint64(v) & mask;
  } else {
    if (p.neg) {
      if (p.mag >> 64) {
        w.e = ET::OutOfRange;
        w.bits = mask;
      } else {
        w.e = ET::SignMismatch;
        w.bits = (0 - uint64(p.mag)) & mask;
      }
    } else if (p.mag > mask) {
      w.e = ET::OutOfRange;
      w.bits = mask;
    } else
      w.bits = uint64(p.mag);
  }
  return w;
}
template <class F> static F strtoF(const char *s, char **e);
template <> float strtoF(const char *s, char **e) { return strtof(s, e); }
template <> double strtoF(const char *s, char **e) { return strtod(s, e); }
template <class F> static Want wantFloat(const std::string &t) {
  Want w;
  size_t i = 0;
  while (i < t.size() && (t[i] == ' ' || t[i] == '\t'))
    i++;
  std::string s = t.substr(i);
  char *e = nullptr;
  errno = 0;
  F v = strtoF<F>(s.c_str(), &e);
  int err = errno;
  if (e == s.c_str()) {
    w.e = ET::InvalidFormat;
    w.write = false;
    return w;
  }
  bool neg = std::signbit(v);
  if (err == ERANGE || std::fpclassify(v) == FP_SUBNORMAL) {
    w.e = ET::OutOfRange;
    F m = std::fabs(v) > 1 ? std::numeric_limits<F>::max() : std::numeric_limits<F>::min();
    v = neg ? -m : m;
  }
  memcpy(&w.bits, &v, sizeof v);
  return w;
}
static std::string trim(const std::string &s, bool endOnly = false) {
  size_t b = 0, e = s.size();
  while (!endOnly && b < e && (s[b] == ' ' || s[b] == '\t'))
    b++;
  while (e > b && (s[e - 1] == ' ' || s[e - 1] == '\t'))
    e--;
  return s.substr(b, e - b);
}
static Want wantEnum(const std::string &t, const EnumDef &d) {
  Want w;
  w.write = false;
  std::string s = trim(t);
  if (s.empty()) {
    w.e = ET::EmptyInput;
    return w;
  }
  if (!d.registered) {
    w.e = ET::InvalidDestination;
    return w;
  }
  for (auto &i : d.items)
    if (s == i.first) {
      w.bits = i.second;
      w.write = true;
      return w;
    }
  w.e = ET::InvalidFormat;
  return w;
}
// error is only "some error" when several sources exist; value still exact
static Want wantFlags(const std::string &t, const EnumDef &d, size_t size, bool &anyErr) {
  Want w;
  anyErr = false;
  std::vector<std::string> parts;
  std::string cur;
  for (char ch : t)
    if (ch == '|') {
      parts.push_back(cur);
      cur.clear();
    } else
      cur += ch;
  if (!cur.empty())
    parts.push_back(cur);
  for (auto &p : parts) {
    std::string s = trim(p);
    if (s.empty()) {
      anyErr = true;
      continue;
    }
    bool found = false;
    for (auto &i : d.items)
      if (s == i.first) {
        w.bits |= 1ull << i.second;
        found = true;
      }
    if (!found && s != "NULL")
      anyErr = true;
  }
  if (size < 8)
    w.bits &= (1ull << (size * 8)) - 1;
  return w;
}
static bool wantBool(const std::string &t, bool &v) {
  std::string s = trim(t);
  for (auto &ch : s)
    ch = char(tolower((unsigned char)ch));
  if (s.compare(0, 4, "true") == 0) {
    v = true;
    return true;
  }
  v = false;
  return s.compare(0, 5, "false") == 0;
}

static uint64 loadBits(const void *p, size_t n) {
  uint64 v = 0;
  memcpy(&v, p, n);
  return v;
}

// text that never contains an array separator or bracket
static std::string cleanText(Rng &r, const Mem &m) {
  std::string s;
  for (int i = 0; i < 20; i++) {
    s = r.chance(1, 10) ? genScalar(r) : genElementFor(r, m);
    if (s.find_first_of(",[]{}()\"\n|") == s.npos)
      break;
    s = "7";
  }
  return s;
}
// Judge one element write.
static void judgeElement(const Mem &m, const std::string &t, ET e, uint64 before, const char *p, size_t size, MK kind,
                         const std::string &ctx, bool errKnown) {
  uint64 after = loadBits(p, size);
  Want w;
  switch (kind) {
  case MK::Int: w = wantInt(t, unsigned(size * 8), true); break;
  case MK::UInt: w = wantInt(t, unsigned(size * 8), false); break;
  case MK::Float: w = size == 4 ? wantFloat<float>(t) : wantFloat<double>(t); break;
  case MK::Enum: w = wantEnum(t, *m.en); break;
  case MK::Bool: {
    bool v, ok = wantBool(t, v);
    if (errKnown)
      CHECK((e == ET::None) == ok && (ok || e == ET::InvalidFormat), "bool-code", "%s -> %s", ctx.c_str(), errName(e));
    if (ok)
      CHECK(after == uint64(v), "bool-value", "%s -> %llu", ctx.c_str(), (unsigned long long)after);
    event(ok ? "bool-ok" : "bool-bad");
    return;
  }
  default: return;
  }
  bool nan = kind == MK::Float && w.write && (size == 4 ? std::isnan(*(const float *)p) : std::isnan(*(const double *)p));
  if (errKnown)
    CHECK(e == w.e, "code", "%s -> %s want %s", ctx.c_str(), errName(e), errName(w.e));
  uint64 want = w.write ? w.bits : before;
  if (nan) {
    float wf;
    double wd;
    memcpy(&wf, &w.bits, 4);
    memcpy(&wd, &w.bits, 8);
    CHECK(size == 4 ? std::isnan(wf) : std::isnan(wd), "value", "%s gives NaN", ctx.c_str());
  } else
    CHECK(after == want, "value", "%s -> %llx want %llx (%s)", ctx.c_str(), (unsigned long long)after,
          (unsigned long long)want, errName(w.e));
  event(w.e == ET::None ? "exact" : w.e == ET::OutOfRange ? "clamped" : w.e == ET::SignMismatch ? "sign" : "rejected");
}

MON_SECTION(scalars, 12000, 600000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox box(r);
  auto &ms = rcMembers();
  for (int k = 0; k < 10; k++) {
    const Mem &m = ms[r.below(ms.size())];
    if (m.n || m.kind == MK::Vec || m.kind == MK::Class || m.kind == MK::Bits || m.kind == MK::CStr)
      continue;
    const size_t id = size_t(&m - ms.data());
    const char *p = (const char *)box.block + m.off;
    std::string t = r.chance(1, 12) ? genScalar(r) : genElementFor(r, m);
    if (m.kind != MK::Str && t.find('\n') != t.npos)
      continue;
    std::string ctx = fmt("%s = '%s'", m.name.c_str(), esc(t).c_str());
    note(ctx);
    distinct(ctx);
    if (k == 0)
      sample(ctx);
    uint64 before = m.size <= 8 ? loadBits(p, m.size) : 0;
    Exact x(t);
    ET e = box.o->SetReflectedValue(id, es::string_view(x.p, x.n));
    if (m.kind == MK::Flags) {
      bool bad;
      Want w = wantFlags(t.substr(std::min(t.size(), t.find_first_not_of(" \t"))), *m.en, m.size, bad);
      CHECK(loadBits(p, m.size) == w.bits, "flags-value", "%s -> %llx want %llx", ctx.c_str(),
            (unsigned long long)loadBits(p, m.size), (unsigned long long)w.bits);
      CHECK((e != ET::None) == bad, "flags-code", "%s -> %s", ctx.c_str(), errName(e));
      event("flags");
    } else if (m.kind == MK::Str) {
      std::string want = t.substr(std::min(t.size(), t.find_first_not_of(" \t")));
      CHECK(*(const std::string *)p == want && e == ET::None, "string", "%s -> '%s'", ctx.c_str(),
            esc(*(const std::string *)p).c_str());
      event("strings");
    } else
      judgeElement(m, t, e, before, p, m.size, m.kind, ctx, true);
    // indexed flags
    if (m.kind == MK::Flags && r.chance(1, 2)) {
      size_t bit = r.below(m.size * 8);
      bool on = r.chance(1, 2);
      uint64 b0 = loadBits(p, m.size), want = on ? b0 | 1ull << bit : b0 & ~(1ull << bit);
      e = box.o->SetReflectedValue(id, on ? "true" : "false", bit);
      CHECK(e == ET::None && loadBits(p, m.size) == want, "flag-bit", "%s bit %zu %d: %llx -> %llx %s", m.name.c_str(), bit,
            on, (unsigned long long)b0, (unsigned long long)loadBits(p, m.size), errName(e));
      CHECK(box.o->GetReflectedValue(id, bit) == (on ? "true" : "false"), "flag-bit-get", "%s bit %zu", m.name.c_str(), bit);
      event("flag-bits");
    }
  }
}

MON_SECTION(arrays, 8000, 400000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox box(r);
  auto &ms = rcMembers();
  for (int k = 0; k < 8; k++) {
    const Mem &m = ms[r.below(ms.size())];
    bool vec = !m.n && m.kind == MK::Vec;
    if (!m.n && !vec)
      continue;
    if (m.kind == MK::Str || m.kind == MK::Class || m.kind == MK::Bits || m.kind == MK::Flags)
      continue;
    const size_t id = size_t(&m - ms.data());
    Mem em = m;
    em.n = 0;
    MK kind = m.kind;
    size_t esz = m.size, n = m.n;
    if (vec) {
      kind = em.kind = m.vkind;
      esz = em.size = m.vsize;
      n = m.vn;
    }
    char *p = (char *)box.block + m.off;
    bool nested = kind == MK::Vec; // array of vectors
    size_t given = r.chance(2, 3) ? n : r.below(n + 3);
    std::vector<std::vector<std::string>> el(given);
    std::string t = std::string(r.below(2), ' ') + (vec ? "[" : "{") + std::string(r.below(2), ' ');
    Mem inner = m;
    inner.kind = m.vkind;
    inner.size = m.vsize;
    bool anyBad = false;
    for (size_t i = 0; i < given; i++) {
      if (nested) {
        t += "[";
        for (size_t j = 0; j < m.vn; j++) {
          std::string x = cleanText(r, inner);
          if (trim(x).empty())
            x = "3";
          el[i].push_back(x);
          t += (j ? "," : "") + x;
        }
        t += "]";
      } else {
        std::string x = cleanText(r, em);
        if (trim(x).empty())
          x = kind == MK::Bool ? "true" : "5";
        el[i].push_back(x);
        t += x;
      }
      if (i + 1 < given)
        t += r.chance(1, 2) ? ", " : ",";
    }
    if (given && r.chance(1, 5))
      t += ",";
    t += vec ? "]" : "}";
    std::string ctx = fmt("%s = '%s'", m.name.c_str(), esc(t).c_str());
    note(ctx);
    distinct(ctx);
    if (k == 0)
      sample(ctx);
    std::string before(p, m.size * (m.n ? m.n : 1));
    Exact x(t);
    ET e = box.o->SetReflectedValue(id, es::string_view(x.p, x.n));
    if (given == 0) {
      CHECK(e != ET::None, "empty-array", "%s -> None", ctx.c_str());
      continue;
    }
    for (size_t i = 0; i < given && i < n; i++)
      for (size_t j = 0; j < el[i].size(); j++) {
        size_t off = i * esz + (nested ? j * m.vsize : 0);
        size_t sz = nested ? m.vsize : esz;
        MK kd = nested ? m.vkind : kind;
        judgeElement(nested ? inner : em, el[i][j], e, loadBits(before.data() + off, sz), p + off, sz, kd,
                     fmt("%s [%zu][%zu] '%s'", ctx.c_str(), i, j, esc(el[i][j]).c_str()), false);
        // whether this element alone is acceptable
        Want w = kd == MK::Int     ? wantInt(el[i][j], unsigned(sz * 8), true)
                 : kd == MK::UInt  ? wantInt(el[i][j], unsigned(sz * 8), false)
                 : kd == MK::Float ? (sz == 4 ? wantFloat<float>(el[i][j]) : wantFloat<double>(el[i][j]))
                 : kd == MK::Enum  ? wantEnum(el[i][j], *m.en)
                                   : Want{};
        bool bv;
        anyBad = anyBad || w.e != ET::None || (kd == MK::Bool && !wantBool(el[i][j], bv));
      }
    for (size_t i = given; i < n; i++)
      CHECK(!memcmp(before.data() + i * esz, p + i * esz, esz), "untouched-tail", "%s element %zu changed", ctx.c_str(), i);
    if (given > n)
      CHECK(e == ET::OutOfRange, "too-many", "%s -> %s", ctx.c_str(), errName(e));
    else
      CHECK((e != ET::None) == anyBad, "array-code", "%s -> %s, bad elements %d", ctx.c_str(), errName(e), anyBad);
    event(given > n ? "too-many" : given < n ? "short" : "full");
  }
}

template <class B> static void bits(Case &c, std::vector<size_t> w, const char *nm) {
  auto &r = c.rng;
  refRegister();
  quietPrinter();
  const bool sig = std::is_signed<decltype(B::value)>::value;
  B b;
  b.value = decltype(b.value)(r.u64());
  ReflectedInstance inst(GetReflectedClass<B>(), &b);
  ReflectorPureWrap o(inst);
  for (int k = 0; k < 10; k++) {
    size_t i = r.below(w.size()), pos = 0;
    for (size_t j = 0; j < i; j++)
      pos += w[j];
    uint64 mask = w[i] == 64 ? ~0ull : (1ull << w[i]) - 1;
    uint64 before = (uint64(b.value) >> pos) & mask;
    std::string t = r.chance(1, 2) ? std::to_string(r.edgy(unsigned(w[i]))) : genNumber(r);
    if (sig && r.chance(1, 2)) { // around the ends of the range
      i128 lim = i128(1) << (w[i] - 1), v = (r.chance(1, 2) ? lim : -lim) + i128(r.range(-2, 2));
      t = v >= i128(0) ? std::to_string(uint64(v)) : "-" + std::to_string(uint64(-v));
    }
    Want wt = wantInt(t, unsigned(w[i]), sig);
    auto others = [&] { return loadBits(&b, sizeof b) & ~(mask << pos); };
    const uint64 rest = others();
    ET e = o.SetReflectedValue(i, t);
    uint64 after = (uint64(b.value) >> pos) & mask, want = wt.write ? wt.bits : before;
    std::string ctx = fmt("%s.%zu(%zu bits) = '%s'", nm, i, w[i], esc(t).c_str());
    CHECK(e == wt.e, "code", "%s -> %s want %s", ctx.c_str(), errName(e), errName(wt.e));
    CHECK(after == want, "value", "%s -> %llx want %llx", ctx.c_str(), (unsigned long long)after, (unsigned long long)want);
    std::string shown = std::to_string(want);
    if (sig && w[i] && (want >> (w[i] - 1)) & 1)
      shown = std::to_string(int64(want | ~mask));
    CHECK(others() == rest, "other-members", "%s -> %llx", ctx.c_str(),
          (unsigned long long)b.value);
    CHECK(o.GetReflectedValue(i) == shown, "get", "%s reads %s", ctx.c_str(), o.GetReflectedValue(i).c_str());
    distinct(ctx);
    event(sig ? "signed-bitmembers" : "bitmembers");
  }
}
// texts in arrays: commas within quotes and brackets belong to them
MON_SECTION(textarrays, 2000, 60000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox box(r);
  auto &ms = rcMembers();
  size_t id = 0;
  while (ms[id].name != "astr")
    id++;
  std::string *got = box.o->astr, before[2] = {got[0], got[1]}, el[2], t = "{";
  const size_t given = 1 + r.below(2);
  for (size_t i = 0; i < given; i++) {
    static const char *quotes[] = {"\"\"", "[]", "()", "{}", ""};
    const char *q = quotes[r.below(5)];
    if (*q) {
      el[i] = q[0] + r.text(r.len(20, 300), "ab, ;x|") + q[1];
      event("quoted");
    }
    if (!*q || r.chance(1, 3))
      el[i] += r.text(1 + r.len(20, 300), "abcx|;=.");
    if (*q && r.chance(1, 3)) {
      const std::string more = r.text(r.below(9), "pq");
      el[i] += more + q[0] + r.text(r.below(20), "y, ") + q[1];
    }
    t += (i ? r.chance(1, 2) ? "," : ", " : "") + el[i];
  }
  t += "}";
  note(esc(t));
  Exact x(t);
  const ET e = box.o->SetReflectedValue(id, es::string_view(x.p, x.n));
  CHECK(e == ET::None, "texts", "'%s' -> %s", esc(t).c_str(), errName(e));
  for (size_t i = 0; i < 2; i++)
    CHECK(got[i] == (i < given ? el[i] : before[i]), "texts", "'%s': element %zu is '%s'", esc(t).c_str(), i, esc(got[i]).c_str());
  distinct(t);
}
MON_SECTION(bitmembers, 8000, 400000) {
  static RegisterReflectedTypes<SBits8, SBits16, SBits32, SBits64, SWide, UWide> reg;
  switch (c.idx % 10) {
  case 4: return bits<SBits8>(c, {3, 1, 4}, "SBits8");
  case 5: return bits<SBits16>(c, {7, 9}, "SBits16");
  case 6: return bits<SBits32>(c, {1, 31}, "SBits32");
  case 7: return bits<SBits64>(c, {20, 2, 33}, "SBits64");
  case 8: return bits<SWide>(c, {63, 1}, "SWide");
  case 9: return bits<UWide>(c, {1, 63}, "UWide");
  case 0: return bits<Bits8>(c, {3, 4, 1}, "Bits8");
  case 1: return bits<Bits16>(c, {2, 5, 9}, "Bits16");
  case 2: return bits<Bits32>(c, {31, 1}, "Bits32");
  default: return bits<Bits64>(c, {20, 1, 33, 9}, "Bits64");
  }
}
// every 8-bit and 16-bit number and its neighbours outside the range
MON_SECTION(exhaust, 700, 700) {
  quietPrinter();
  Rng r(1);
  ObjBox box(r);
  auto &ms = rcMembers();
  for (int v = int(c.idx) * 200 - 70000; v < int(c.idx) * 200 - 69800; v++)
    for (const char *nm : {"i8", "u8", "i16", "u16"}) {
      size_t id = 0;
      while (ms[id].name != nm)
        id++;
      const Mem &m = ms[id];
      char *p = (char *)box.block + m.off;
      uint64 before = loadBits(p, m.size);
      std::string t = std::to_string(v);
      ET e = box.o->SetReflectedValue(id, t);
      judgeElement(m, t, e, before, p, m.size, m.kind, m.name + "=" + t, true);
    }
  event("exhaustive-blocks");
  distinct(c.idx);
}
MON_MAIN
