// C10: members are found consistently by position, name and alias; descriptions, pairs and nested views are right.
#include "refl_print.hpp"
#include <deque>
using namespace mon;
using ET = Reflector::ErrorType;

struct NoNames : ReflectorBase<NoNames> {
  int32 first;
  uint8 second[3];
  float third;
};
REFLECTOR_CREATE(NoNames, 0, first, second, third);
template <class T, class U> struct Tpl : ReflectorBase<Tpl<T, U>> {
  T one;
  uint16 mid;
  U two[2];
};
REFLECTOR_CREATE((Tpl<int32, float>), 2, VARNAMES, TEMPLATE, one, mid, two);
struct AliasClash : ReflectorBase<AliasClash> {
  int32 a, b, c;
};
// the alias of a is the name of c: names win
REFLECTOR_CREATE(AliasClash, 1, EXTENDED, (A, a, "c"), (AD, b, "bee", "is %x"), (D, c, "%only tail"));

static const Mem *findMem(const std::string &s, bool &ambiguous) {
  ambiguous = false;
  for (auto &m : rcMembers())
    if (m.name == s)
      return &m;
  for (auto &m : rcMembers())
    if (m.hasAlias && m.alias == s)
      return &m;
  return nullptr;
}
static std::string rndName(Rng &r) {
  auto &ms = rcMembers();
  const Mem &m = ms[r.below(ms.size())];
  switch (r.below(6)) {
  case 0:
  case 1: return m.name;
  case 2: return m.hasAlias ? m.alias : m.name;
  case 3: return m.hasDesc ? m.d1 : m.name + "x";
  case 4: {
    std::string s = m.name;
    if (r.chance(1, 2))
      s[r.below(s.size())] ^= 0x20;
    else
      s.pop_back();
    return s;
  }
  default: return r.text(r.below(30));
  }
}

MON_SECTION(names, 12000, 300000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox box(r, true);
  auto &ms = rcMembers();
  ReflectedInstance inst(GetReflectedClass<RC>(), box.o);
  ReflectorPureWrap pure(inst);
  ReflectorWrap<RC> wrap(*box.o);
  ReflectorWrap<const RC> cwrap(*box.o);
  const Reflector *views[] = {box.o, &pure, &wrap, &cwrap};
  for (int k = 0; k < 12; k++) {
    const Reflector &o = *views[r.below(4)];
    std::string nm = rndName(r);
    note(nm);
    bool amb;
    const Mem *m = findMem(nm, amb);
    JenHash h{es::string_view(nm)};
    bool known = true;
    std::string want = m ? textOf(*m, (const char *)box.block + m->off, known) : "";
    std::string got = o.GetReflectedValue(h);
    if (known)
      CHECK(got == want, "value-by-name", "'%s' gives '%s' want '%s'", esc(nm).c_str(), esc(got).c_str(), esc(want).c_str());
    Reflector::KVPairFormat kf;
    kf.aliasName = r.chance(1, 2);
    kf.formatValue = r.chance(1, 2);
    auto pr = o.GetReflectedPair(h, kf);
    if (m) {
      std::string wn = kf.aliasName && m->hasAlias ? m->alias : m->name;
      std::string wv = got;
      if (kf.formatValue && m->hasDesc && !m->d1.empty())
        wv = m->d1 + " " + got + (m->d2.empty() ? "" : " " + m->d2);
      CHECK(pr.name.to_string() == wn, "pair-name", "'%s' alias %d: '%s' want '%s'", nm.c_str(), int(kf.aliasName),
            pr.name.to_string().c_str(), wn.c_str());
      CHECK(pr.value == wv, "pair-value", "'%s': '%s' want '%s'", nm.c_str(), esc(pr.value).c_str(), esc(wv).c_str());
      size_t id = size_t(m - ms.data());
      auto pi = o.GetReflectedPair(id, kf);
      CHECK(pi.name == pr.name && pi.value == pr.value && o.GetReflectedValue(id) == got, "index-agrees", "'%s' and index %zu",
            nm.c_str(), id);
      CHECK(o.IsArray(h) == (m->n != 0) && o.IsArray(id) == (m->n != 0), "is-array", "%s", nm.c_str());
      bool cls = m->kind == MK::Class || m->kind == MK::Bits;
      CHECK(o.IsReflectedSubClass(h) == cls && o.IsReflectedSubClass(id) == cls, "is-subclass", "%s", nm.c_str());
      event("found");
    } else {
      CHECK(got.empty() && pr.value.empty() && pr.name.empty(), "phantom", "'%s' gives '%s'", esc(nm).c_str(), esc(got).c_str());
      CHECK(!o.IsArray(h) && !o.IsReflectedSubClass(h) && !present(o.GetReflectedSubClass(h)), "phantom-kind", "%s", nm.c_str());
      CHECK(box.o->SetReflectedValue(h, "1") == ET::InvalidDestination &&
                box.o->SetReflectedValueInt(h, 1) == ET::InvalidDestination &&
                box.o->SetReflectedValueUInt(h, 1) == ET::InvalidDestination &&
                box.o->SetReflectedValueFloat(h, 1) == ET::InvalidDestination &&
                box.o->SetReflectedValue(h, "1", 0) == ET::InvalidDestination &&
                box.o->SetReflectedValue(h, "1", 0, 0) == ET::InvalidDestination,
            "phantom-set", "%s", nm.c_str());
      event("unknown");
    }
    distinct(nm);
  }
  size_t bad = ms.size() + r.below(1000);
  CHECK(box.o->GetReflectedValue(bad).empty() && !box.o->IsArray(bad) && !box.o->IsReflectedSubClass(bad) &&
            !present(box.o->GetReflectedSubClass(bad)) && box.o->GetReflectedPair(bad).value.empty() &&
            box.o->SetReflectedValue(bad, "1") == ET::InvalidDestination,
        "index-phantom", "index %zu", bad);
  for (auto v : views)
    CHECK(v->GetNumReflectedValues() == ms.size() && v->GetClassName() == "RC" && v->UseNames(), "class-data", "%zu members, '%s'",
          v->GetNumReflectedValues(), v->GetClassName().to_string().c_str());
}

// nested views address exactly the memory of the nested object
MON_SECTION(nested, 8000, 200000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox box(r, true);
  auto &ms = rcMembers();
  for (int k = 0; k < 10; k++) {
    const Mem &m = ms[r.below(ms.size())];
    size_t id = size_t(&m - ms.data());
    size_t n = m.n ? m.n : 1;
    size_t i = r.chance(1, 4) ? n + r.below(4) : r.below(n);
    bool cls = m.kind == MK::Class || m.kind == MK::Bits;
    bool want = cls && m.clsRegistered && i < n;
    const Reflector &co = *box.o;
    JenHash h{es::string_view(m.name)};
    ReflectedInstance v[] = {box.o->GetReflectedSubClass(id, i), co.GetReflectedSubClass(id, i), box.o->GetReflectedSubClass(h, i),
                             co.GetReflectedSubClass(h, i)};
    for (auto &x : v) {
      CHECK(present(x) == want, "nested-presence", "%s[%zu] %d", m.name.c_str(), i, int(present(x)));
      if (want && present(x)) {
        CHECK((const char *)instOf(x) == (const char *)box.block + m.off + m.size * i, "nested-address", "%s[%zu] at %td want %zu",
              m.name.c_str(), i, (const char *)instOf(x) - (const char *)box.block, m.off + m.size * i);
        ReflectorPureWrap w(x);
        CHECK(w.GetClassName() == m.cls, "nested-class", "%s is %s", m.name.c_str(), w.GetClassName().to_string().c_str());
      }
    }
    if (!want)
      event("absent");
    if (want && !strcmp(m.cls, "SubR")) {
      SubR *s = (SubR *)((char *)box.block + m.off + m.size * i);
      ReflectorPureWrap w(v[0]);
      int32 nv = int32(r.u64());
      uint8 nz = uint8(r.u64());
      CHECK(w.SetReflectedValue(JenHash("sx"), std::to_string(nv)) == ET::None && s->sx == nv, "nested-write", "sx %d", nv);
      CHECK(w.SetReflectedValueUInt(JenHash("sz"), nz, 1) == ET::None && s->sz[1] == nz, "nested-write", "sz %d", nz);
      s->sx = int32(r.u64());
      CHECK(w.GetReflectedValue(JenHash("sx")) == std::to_string(s->sx), "nested-read", "sx %d", s->sx);
      event("nested-live");
    }
    if (want && !strcmp(m.cls, "SubDeep")) {
      SubDeep *d = (SubDeep *)((char *)box.block + m.off);
      ReflectorPureWrap w(v[0]);
      size_t q = r.below(3);
      ReflectedInstance in = q == 0 ? w.GetReflectedSubClass(JenHash("inner")) : w.GetReflectedSubClass(JenHash("arr"), q - 1);
      SubR *t = q == 0 ? &d->inner : &d->arr[q - 1];
      CHECK(instOf(in) == t, "deep-address", "view %zu", q);
      ReflectorPureWrap w2(in);
      t->sx = int32(r.u64());
      CHECK(w2.GetReflectedValue(size_t(0)) == std::to_string(t->sx), "deep-read", "view %zu", q);
      event("nested-deep");
    }
    distinct(fmt("%s %zu", m.name.c_str(), i));
  }
}

// members too big or too far to be described are refused, never taken for other memory
struct BigItem {
  int32 head;
  uint8 gap[300];
  int32 tail;
  void ReflectorTag();
};
REFLECTOR_CREATE(BigItem, 1, VARNAMES, head, tail);
struct FitItem {
  int32 head;
  uint8 gap[244];
  int32 tail;
  void ReflectorTag();
};
REFLECTOR_CREATE(FitItem, 1, VARNAMES, head, tail);
struct Near : ReflectorBase<Near> {
  uint8 gap[64000];
  int32 edge;
  FitItem items[3];
  BigItem one;
};
REFLECTOR_CREATE(Near, 1, VARNAMES, edge, items, one);
struct Far : ReflectorBase<Far> {
  uint8 gap[65536];
  int32 beyond;
};
REFLECTOR_CREATE(Far, 1, VARNAMES, beyond);
struct BigItems : ReflectorBase<BigItems> {
  BigItem items[3];
};
REFLECTOR_CREATE(BigItems, 1, VARNAMES, items);
struct BigStdItems : ReflectorBase<BigStdItems> {
  std::array<BigItem, 3> items;
};
REFLECTOR_CREATE(BigStdItems, 1, VARNAMES, items);
struct Many : ReflectorBase<Many> {
  uint8 items[65535];
};
REFLECTOR_CREATE(Many, 1, VARNAMES, items);
struct TooMany : ReflectorBase<TooMany> {
  uint8 items[65539];
};
REFLECTOR_CREATE(TooMany, 1, VARNAMES, items);
template <class C, class F> static void refusedOr(bool fits, const char *what, F f) {
  std::unique_ptr<C> o(new C());
  try {
    f(*o);
    event("large-right");
  } catch (const std::exception &) {
    CHECK(!fits, "large", "%s were refused", what);
    event("large-refused");
  }
}
template <class C> static void itemsAt(Rng &r, C &o, size_t count, const char *what) {
  for (size_t i = 0; i < count; i++) {
    auto &item = o.items[i];
    item.tail = int32(r.u64());
    ReflectedInstance in = o.GetReflectedSubClass(JenHash("items"), i);
    CHECK(present(in) && instOf(in) == &item, "large", "item %zu of %s is elsewhere", i, what);
    if (!present(in))
      continue;
    ReflectorPureWrap w(in);
    CHECK(w.GetReflectedValue(JenHash("tail")) == std::to_string(item.tail), "large", "item %zu of %s is read elsewhere", i, what);
  }
}
MON_SECTION(large, 40, 2000) {
  static RegisterReflectedTypes<BigItem, FitItem> reg;
  quietPrinter();
  auto &r = c.rng;
  const int32 v = int32(r.u64());
  refusedOr<Near>(true, "members at 64000", [&](Near &o) {
    o.edge = v;
    CHECK(o.GetReflectedValue(JenHash("edge")) == std::to_string(v), "large", "member at 64000 is read elsewhere");
    itemsAt(r, o, 3, "255 byte items");
    ReflectedInstance in = o.GetReflectedSubClass(JenHash("one"));
    CHECK(instOf(in) == &o.one, "large", "a class of 308 bytes is elsewhere");
  });
  refusedOr<Far>(false, "members beyond 65536", [&](Far &o) {
    o.beyond = v;
    CHECK(o.GetReflectedValue(JenHash("beyond")) == std::to_string(v), "large", "member at 65536 is read elsewhere");
    CHECK(o.SetReflectedValue(JenHash("beyond"), "77") == ET::None && o.beyond == 77, "large", "member at 65536 is set elsewhere");
  });
  refusedOr<BigItems>(false, "308 byte items", [&](BigItems &o) { itemsAt(r, o, 3, "308 byte items"); });
  refusedOr<BigStdItems>(false, "308 byte items of std::array", [&](BigStdItems &o) { itemsAt(r, o, 3, "308 byte items of std::array"); });
  const size_t at = 65535 - 1 - r.below(8);
  refusedOr<Many>(true, "65535 items", [&](Many &o) {
    o.items[at] = uint8(v);
    CHECK(o.GetReflectedValue(JenHash("items"), at) == std::to_string(uint8(v)), "large", "item %zu is read elsewhere", at);
  });
  refusedOr<TooMany>(false, "65539 items", [&](TooMany &o) {
    o.items[at] = uint8(v);
    CHECK(o.GetReflectedValue(JenHash("items"), at) == std::to_string(uint8(v)), "large", "item %zu of too many is read elsewhere", at);
  });
  distinct(uint64_t(v));
}

// other declaration forms
MON_SECTION(forms, 2000, 20000) {
  quietPrinter();
  auto &r = c.rng;
  NoNames nn;
  nn.first = int32(r.u64());
  for (auto &x : nn.second)
    x = uint8(r.u64());
  nn.third = float(r.range(-1000, 1000));
  CHECK(nn.GetNumReflectedValues() == 3 && !nn.UseNames(), "noname-data", "%zu", nn.GetNumReflectedValues());
  CHECK(nn.GetReflectedValue(size_t(0)) == std::to_string(nn.first) && nn.GetReflectedValue(JenHash("first")) == std::to_string(nn.first),
        "noname-value", "first");
  Reflector::KVPairFormat kf;
  kf.aliasName = kf.formatValue = r.chance(1, 2);
  auto p = nn.GetReflectedPair(size_t(2), kf);
  CHECK(p.name.empty() && p.value == fmt("%.6g", double(nn.third)), "noname-pair", "%s", p.value.c_str());
  CHECK(nn.SetReflectedValue(JenHash("second"), "{7,8,9}") == ET::None && nn.second[0] == 7 && nn.second[2] == 9, "noname-set", "second");
  event("unnamed");
  Tpl<int32, float> t;
  t.one = int32(r.u64());
  t.mid = uint16(r.u64());
  t.two[0] = 1;
  t.two[1] = float(r.range(-100, 100));
  CHECK(t.GetNumReflectedValues() == 3 && t.GetReflectedValue(JenHash("mid")) == std::to_string(t.mid), "template-value", "mid");
  CHECK(t.GetReflectedValue(JenHash("two"), 1) == fmt("%g", double(t.two[1])), "template-value", "two");
  CHECK(t.GetReflectedPair(size_t(0)).name == "one", "template-name", "%s", t.GetReflectedPair(size_t(0)).name.to_string().c_str());
  event("templates");
  AliasClash a;
  a.a = int32(r.below(1000));
  a.b = int32(r.below(1000)) + 2000;
  a.c = int32(r.below(1000)) + 4000;
  CHECK(a.GetReflectedValue(JenHash("c")) == std::to_string(a.c), "clash", "c is %s", a.GetReflectedValue(JenHash("c")).c_str());
  CHECK(a.GetReflectedValue(JenHash("bee")) == std::to_string(a.b), "clash", "bee");
  kf.aliasName = kf.formatValue = true;
  auto pa = a.GetReflectedPair(size_t(0), kf), pb = a.GetReflectedPair(size_t(1), kf), pc = a.GetReflectedPair(size_t(2), kf);
  CHECK(pa.name == "c" && pa.value == std::to_string(a.a), "pair-a", "%s", pa.value.c_str());
  CHECK(pb.name == "bee" && pb.value == "is  " + std::to_string(a.b) + " x", "pair-b", "%s", pb.value.c_str());
  CHECK(pc.name == "c" && pc.value == std::to_string(a.c), "pair-c", "%s", pc.value.c_str());
  event("aliases");
  distinct(fmt("%d %d", t.one, a.a));
}
// classes with up to hundreds of members, made up at random
struct DynDef {
  JenHash hash;
  std::vector<reflType> types;
  std::deque<std::string> pool;
  std::vector<const char *> names, aliases;
  std::vector<JenHash> aliasHashes;
};
static DynDef *gDyn;
struct DynClass {};
template <> struct ReflectorType<DynClass> {
  static JenHash Hash() { return gDyn->hash; }
  static const char *ClassName() { return "DynClass"; }
  static size_t NumTypes() { return gDyn->types.size(); }
  static const reflType *Types() { return gDyn->types.data(); }
  static const char *const *TypeNames() { return gDyn->names.data(); }
  static const char *const *TypeAliases() { return gDyn->aliases.data(); }
  static const JenHash *TypeAliasHashes() { return gDyn->aliasHashes.data(); }
  static const _ReflDesc *TypeDescriptors() { return nullptr; }
};
MON_SECTION(manymembers, 60, 2000) {
  auto &r = c.rng;
  quietPrinter();
  DynDef d;
  d.hash = JenHash(uint32(r.u64()));
  const size_t n = 1 + r.below(256);
  std::vector<uint32> data(n);
  for (size_t i = 0; i < n; i++) {
    reflType t{};
    t.type = REFType::UnsignedInteger;
    t.subSize = 4;
    t.ID = uint8(i);
    t.numItems = 1;
    t.offset = uint16(i * 4);
    d.pool.push_back(fmt("member_%zu_%x", i, r.below(4096)));
    d.names.push_back(d.pool.back().c_str());
    t.valueNameHash = JenHash(es::string_view(d.pool.back()));
    const bool has = r.chance(1, 2);
    if (has)
      d.pool.push_back(fmt("the alias of %zu", i));
    d.aliases.push_back(has ? d.pool.back().c_str() : nullptr);
    d.aliasHashes.push_back(has ? JenHash(es::string_view(d.pool.back())) : JenHash());
    d.types.push_back(t);
    data[i] = uint32(r.u64());
  }
  gDyn = &d;
  reflectorStatic st{_RTag<DynClass>{}};
  ReflectedInstance inst(&st, data.data());
  ReflectorPureWrap o(inst);
  CHECK(o.GetNumReflectedValues() == n, "many-count", "%zu of %zu members", o.GetNumReflectedValues(), n);
  for (size_t i = 0; i < n; i++) {
    const std::string want = std::to_string(data[i]), name = d.names[i];
    const JenHash hn{es::string_view(name)};
    CHECK(o.GetReflectedValue(i) == want, "many-index", "%zu of %zu", i, n);
    CHECK(o.GetReflectedValue(hn) == want, "many-name", "%zu of %zu", i, n);
    auto pr = o.GetReflectedPair(hn);
    CHECK(pr.name == name && pr.value == want, "many-pair", "%zu of %zu", i, n);
    if (d.aliases[i]) {
      const std::string al = d.aliases[i];
      const JenHash ha{es::string_view(al)};
      CHECK(o.GetReflectedValue(ha) == want, "many-alias", "%zu of %zu by '%s'", i, n, al.c_str());
      Reflector::KVPairFormat kf;
      kf.aliasName = true;
      CHECK(o.GetReflectedPair(ha, kf).name == al && o.GetReflectedPair(i, kf).name == al, "many-alias-pair", "%zu of %zu", i, n);
    }
    const uint32 v = uint32(r.u64());
    CHECK(o.SetReflectedValueUInt(d.aliases[i] && r.chance(1, 2) ? JenHash(es::string_view(d.aliases[i])) : hn, v) == ET::None && data[i] == v,
          "many-set", "%zu of %zu", i, n);
  }
  CHECK(o.GetReflectedValue(n).empty() && o.GetReflectedValue(n + 256).empty(), "many-past", "%zu members", n);
  CHECK(o.GetReflectedValue(JenHash(es::string_view("the alias of nothing"))).empty(), "many-phantom", "%zu members", n);
  distinct(hashBytes((const char *)d.types.data(), n * sizeof(reflType)));
  event("many-members");
}
MON_MAIN
