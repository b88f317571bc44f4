// C13: reflection database round trip.
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/reflector_io.hpp"
#include "refl_fixture.hpp"
#include "refl_print.hpp"
#include <deque>
#include <memory>
#include <sstream>
using namespace mon;

// Class descriptions made up at random, seen by the library through its own description type.
struct ClassDef {
  JenHash hash;
  std::vector<reflType> types;
  std::deque<std::string> pool;
  std::vector<const char *> names, aliases;
  std::vector<JenHash> aliasHashes;
  std::vector<_ReflDesc> descs;
  const char *className = nullptr;
};
static ClassDef *gDef;
struct Dyn {};
template <> struct ReflectorType<Dyn> {
  static JenHash Hash() { return gDef->hash; }
  static const char *ClassName() { return gDef->className; }
  static size_t NumTypes() { return gDef->types.size(); }
  static const reflType *Types() { return gDef->types.data(); }
  static const char *const *TypeNames() { return gDef->names.empty() ? nullptr : gDef->names.data(); }
  static const char *const *TypeAliases() { return gDef->aliases.empty() ? nullptr : gDef->aliases.data(); }
  static const JenHash *TypeAliasHashes() { return gDef->aliasHashes.empty() ? nullptr : gDef->aliasHashes.data(); }
  static const _ReflDesc *TypeDescriptors() { return gDef->descs.empty() ? nullptr : gDef->descs.data(); }
};
static std::string word(Rng &r) {
  std::string s;
  for (size_t n = r.chance(1, 900) ? r.below(70000) : r.below(3) ? r.below(12) : r.below(60); n; n--)
    s += char(33 + r.below(94));
  return s;
}
static const char *str(ClassDef &d, const std::string &s) {
  d.pool.push_back(s);
  return d.pool.back().c_str();
}
static void makeClass(Rng &r, ClassDef &d, bool bare) {
  d.hash = JenHash(uint32(r.u64()));
  size_t n = 1 + r.len(12, 400);
  for (size_t i = 0; i < n; i++) {
    reflType t{};
    std::string b = r.bytes(sizeof t);
    memcpy((void *)&t, b.data(), b.size());
    d.types.push_back(t);
  }
  if (bare)
    return;
  d.className = str(d, "C" + word(r));
  for (size_t i = 0; i < n; i++)
    d.names.push_back(str(d, word(r)));
  if (r.chance(1, 2))
    for (size_t i = 0; i < n; i++) {
      bool has = r.chance(1, 2);
      d.aliases.push_back(has ? str(d, word(r)) : nullptr);
      d.aliasHashes.push_back(has ? JenHash(uint32(r.u64())) : JenHash());
    }
  if (!d.aliases.empty() && r.chance(2, 3))
    for (size_t i = 0; i < n; i++) {
      auto v = [&] { return es::string_view(r.chance(1, 2) ? str(d, word(r)) : ""); };
      auto a = v(), b = v();
      d.descs.push_back({a, b});
    }
}
static bool sameStr(const char *a, const char *b) { return a && b ? !strcmp(a, b) : a == b; }
static std::string diffClass(const reflectorStatic &a, const reflectorStatic &b) {
  if (a.classHash != b.classHash || a.nTypes != b.nTypes)
    return "hash or count";
  if (memcmp((const void *)a.types, (const void *)b.types, sizeof(reflType) * a.nTypes))
    return "types";
  if (!sameStr(a.className, b.className))
    return "class name";
  if (!a.typeNames != !b.typeNames || !a.typeAliases != !b.typeAliases || !a.typeAliasHashes != !b.typeAliasHashes ||
      !a.typeDescs != !b.typeDescs)
    return "presence of a table";
  for (size_t i = 0; i < a.nTypes; i++) {
    if (a.typeNames && !sameStr(a.typeNames[i], b.typeNames[i]))
      return fmt("name %zu", i);
    if (a.typeAliases && !sameStr(a.typeAliases[i], b.typeAliases[i]))
      return fmt("alias %zu", i);
    if (a.typeAliasHashes && a.typeAliasHashes[i] != b.typeAliasHashes[i])
      return fmt("alias hash %zu", i);
    if (a.typeDescs && (std::string(a.typeDescs[i].part1.begin(), a.typeDescs[i].part1.end()) !=
                            std::string(b.typeDescs[i].part1.begin(), b.typeDescs[i].part1.end()) ||
                        std::string(a.typeDescs[i].part2.begin(), a.typeDescs[i].part2.end()) !=
                            std::string(b.typeDescs[i].part2.begin(), b.typeDescs[i].part2.end())))
      return fmt("description %zu", i);
  }
  return "";
}
struct EnumSrc {
  std::string name;
  uint32 hash;
  std::vector<std::string> names;
  std::vector<uint64> values;
};
struct DynEnum : ReflectedEnum {
  explicit DynEnum(const EnumSrc &s) {
    for (auto &n : s.names)
      parent::push_back({n.data(), n.size()});
    values = s.values.data();
    name = {s.name.data(), s.name.size()};
    hash = JenHash(s.hash);
  }
};
static std::string diffEnum(const EnumSrc &a, const ReflectedEnum &b) {
  if (b.hash != JenHash(a.hash) || b.size() != a.names.size())
    return "hash or count";
  if (std::string(b.name.begin(), b.name.end()) != a.name)
    return "enum name";
  for (size_t i = 0; i < b.size(); i++) {
    if (b.values[i] != a.values[i])
      return fmt("value %zu", i);
    if (std::string(b[i].begin(), b[i].end()) != a.names[i])
      return fmt("enumerator %zu", i);
  }
  return "";
}
static EnumSrc srcOf(const EnumDef &d) {
  EnumSrc e;
  e.name = d.name;
  e.hash = JenHash(d.name).raw();
  for (auto &i : d.items) {
    e.names.push_back(i.first);
    e.values.push_back(i.second);
  }
  return e;
}

MON_SECTION(roundtrip, 6000, 250000) {
  auto &r = c.rng;
  refRegister();
  std::deque<ClassDef> defs;
  std::deque<reflectorStatic> made;
  std::vector<const reflectorStatic *> cls;
  std::deque<EnumSrc> enums;
  ReflectorIO out;
  std::string log;
  for (size_t n = r.below(6); n; n--) {
    switch (r.below(6)) {
    case 0: cls.push_back(GetReflectedClass<RC>()); out.AddClass<RC>(); break;
    case 1: cls.push_back(GetReflectedClass<SubR>()); out.AddClass<SubR>(); break;
    case 2: cls.push_back(GetReflectedClass<Bits64>()); out.AddClass<Bits64>(); break;
    default:
      defs.emplace_back();
      makeClass(r, defs.back(), r.chance(1, 4));
      gDef = &defs.back();
      made.emplace_back(_RTag<Dyn>{});
      cls.push_back(&made.back());
      out.AddClass(&made.back());
      log += fmt("class%zu%s%s%s ", defs.back().types.size(), defs.back().names.empty() ? "" : "n",
                 defs.back().aliases.empty() ? "" : "a", defs.back().descs.empty() ? "" : "d");
    }
  }
  for (size_t n = r.below(5); n; n--) {
    switch (r.below(5)) {
    case 0: enums.push_back(srcOf(edBits())); out.AddEnum<EnBits>(); break;
    case 1: enums.push_back(srcOf(edD())); out.AddEnum<EnD>(); break;
    default: {
      EnumSrc e;
      e.name = "E" + word(r);
      e.hash = uint32(r.u64());
      for (size_t k = r.len(20, 700); k; k--) {
        e.names.push_back(word(r));
        e.values.push_back(r.edgy(64));
      }
      enums.push_back(e);
      out.AddEnum(DynEnum(enums.back()));
      log += fmt("enum%zu ", e.names.size());
    }
    }
  }
  const std::string before = r.bytes(r.chance(1, 3) ? r.below(70) : 0);
  std::stringstream ss;
  BinWritterRef wr(ss);
  wr.WriteBuffer(before.data(), before.size());
  note(fmt("%zu before, %zu classes, %zu enums", before.size(), cls.size(), enums.size()));
  CHECKR(!out.Save(wr), "save", "save refused: %s", log.c_str());
  std::string d = ss.str();
  CHECKR(!d.compare(0, before.size(), before), "before", "bytes before the database changed");
  CHECK(wr.Tell() == d.size(), "cursor", "writer at %zu of %zu", wr.Tell(), d.size());
  const std::string after = r.bytes(r.below(20));
  std::stringstream is(d + after);
  BinReaderRef rd(is);
  rd.Seek(before.size());
  auto loaded = std::make_unique<ReflectorIO>();
  // sometimes the database has classes and enums already, added or loaded
  const unsigned had = r.below(4);
  const size_t times = had & 2 ? 2 + r.len(3, 12) : 1;
  if (had & 1) {
    loaded->AddClass<SubR>();
    loaded->AddEnum<EnBits>();
  }
  for (size_t t = 1; t < times; t++) {
    std::stringstream again(d.substr(before.size()));
    CHECK(!loaded->Load(BinReaderRef(again)), "load", "first load refused: %s", log.c_str());
  }
  int rc = loaded->Load(rd);
  CHECKR(!rc, "load", "load gave %d: %s", rc, log.c_str());
  CHECK(rd.Tell() == d.size(), "end", "reader at %zu of %zu", rd.Tell(), d.size());
  if (had) {
    auto &lc = loaded->Classes();
    auto &le = loaded->Enums();
    const size_t added = had & 1;
    CHECKR(lc.size() == added + times * cls.size() && le.size() == added + times * enums.size(), "count", "%zu classes, %zu enums in a used database", lc.size(),
           le.size());
    if (added) {
      CHECK(lc[0] == GetReflectedClass<SubR>(), "kept", "the class added before is gone");
      CHECK(diffEnum(srcOf(edBits()), le[0]).empty(), "kept", "the enum added before changed: %s", diffEnum(srcOf(edBits()), le[0]).c_str());
    }
    for (size_t t = 0; t < times; t++) {
      for (size_t i = 0; i < cls.size(); i++) {
        std::string df = diffClass(*cls[i], *lc[added + t * cls.size() + i]);
        CHECK(df.empty(), "kept", "load %zu: class %zu of %s: %s differs", t, i, log.c_str(), df.c_str());
      }
      for (size_t i = 0; i < enums.size(); i++) {
        std::string df = diffEnum(enums[i], le[added + t * enums.size() + i]);
        CHECK(df.empty(), "kept", "load %zu: enum %zu of %s: %s differs", t, i, log.c_str(), df.c_str());
      }
    }
    std::string df = diffClass(*GetReflectedClass<SubR>(), *std::unique_ptr<reflectorStatic>(new reflectorStatic(_RTag<SubR>{})));
    CHECK(df.empty(), "kept", "a compiled class was changed: %s", df.c_str());
    event("used-database");
    distinct(hashBytes(d.data(), d.size(), had));
    return;
  }
  // copies stand on their own
  ReflectorIO in;
  switch (r.below(3)) {
  case 0: in = *loaded; break;
  case 1: in = std::move(*loaded); break;
  default: in = ReflectorIO(*loaded);
  }
  loaded.reset();
  event("copies");
  CHECKR(in.Classes().size() == cls.size() && in.Enums().size() == enums.size(), "count", "%zu classes, %zu enums",
         in.Classes().size(), in.Enums().size());
  for (size_t i = 0; i < cls.size(); i++) {
    std::string df = diffClass(*cls[i], *in.Classes()[i]);
    CHECK(df.empty(), "class", "class %zu of %s: %s differs", i, log.c_str(), df.c_str());
    event("classes");
  }
  for (size_t i = 0; i < enums.size(); i++) {
    std::string df = diffEnum(enums[i], in.Enums()[i]);
    CHECK(df.empty(), "enum", "enum %zu of %s: %s differs", i, log.c_str(), df.c_str());
    event("enums");
  }
  // saved again
  std::stringstream s2;
  BinWritterRef w2(s2);
  in.Save(w2);
  CHECK(s2.str() == d.substr(before.size()), "again", "database saved again differs: %s", log.c_str());
  if (!before.empty())
    event("offset");
  distinct(hashBytes(d.data(), d.size()));
}

// loaded tables describe live objects like the compiled ones
MON_SECTION(live, 1500, 20000) {
  quietPrinter();
  auto &r = c.rng;
  refRegister();
  ReflectorIO out;
  out.AddClass<SubR>();
  out.AddClass<RC>();
  std::stringstream ss;
  out.Save(BinWritterRef(ss));
  ReflectorIO in;
  in.Load(BinReaderRef(ss));
  CHECKR(in.Classes().size() == 2, "live-count", "classes lost");
  ObjBox a(r);
  ReflectedInstance li(in.Classes()[1], a.o);
  ReflectorPureWrap la(li);
  Reflector &ca = *a.o;
  for (auto &m : rcMembers()) {
    const std::string &nm = m.hasAlias && r.chance(1, 2) ? m.alias : m.name;
    auto x = la.GetReflectedValue(JenHash(nm.c_str())), y = ca.GetReflectedValue(JenHash(nm.c_str()));
    CHECK(x == y, "live-value", "%s: '%s' and '%s'", nm.c_str(), esc(x).c_str(), esc(y).c_str());
    auto pa = la.GetReflectedPair(JenHash(nm.c_str())), pb = ca.GetReflectedPair(JenHash(nm.c_str()));
    CHECK(pa.name == pb.name && pa.value == pb.value, "live-pair", "%s: '%s' and '%s'", nm.c_str(),
          esc(pa.value).c_str(), esc(pb.value).c_str());
  }
  int v = int(r.u64());
  la.SetReflectedValue("i32", std::to_string(v).c_str());
  CHECK(a.o->i32 == v, "live-set", "i32 is %d, not %d", a.o->i32, v);
  event("live");
  distinct(uint32(v));
}

MON_SECTION(refuse, 2000, 20000) {
  auto &r = c.rng;
  ReflectorIO out;
  out.AddClass<RC>();
  std::stringstream ss;
  out.Save(BinWritterRef(ss));
  std::string d = ss.str();
  bool ver = r.chance(1, 2);
  uint32 v;
  if (ver) {
    v = 1001 + uint32(r.edgy(31));
    memcpy(&d[4], &v, 4);
  } else {
    memcpy(&v, d.data(), 4);
    uint32 bit = 1u << r.below(32);
    v = r.chance(1, 2) ? v ^ bit : uint32(r.u64()) ^ 1;
    memcpy(&d[0], &v, 4);
    if (!memcmp(d.data(), "RFDB", 4))
      return;
  }
  std::stringstream is(d);
  ReflectorIO in;
  int rc = in.Load(BinReaderRef(is));
  CHECK(rc == (ver ? 2 : 1), "refuse", "%s %x: result %d", ver ? "version" : "id", v, rc);
  CHECK(in.Classes().empty() && in.Enums().empty(), "refuse-empty", "refused database left classes");
  event(ver ? "newer-version" : "other-id");
  distinct(v);
}
// cut anywhere, into an empty or a used database
MON_SECTION(cut, 2000, 40000) {
  auto &r = c.rng;
  ReflectorIO out;
  EnumSrc small;
  if (r.chance(1, 4)) { // hardly anything in it
    small.name = word(r);
    small.hash = uint32(r.u64());
    for (size_t k = r.below(3); k; k--) {
      small.names.push_back(word(r));
      small.values.push_back(r.edgy(64));
    }
    out.AddEnum(DynEnum(small));
    event("cut-small");
  } else
    out.AddClass<RC>();
  if (small.name.empty() && r.chance(1, 2))
    out.AddEnum<EnB>();
  if (small.name.empty() && r.chance(1, 2))
    out.AddClass<SubDeep>();
  std::stringstream ss;
  const std::string before = r.bytes(r.chance(1, 2) ? 0 : r.below(100));
  ss << before;
  out.Save(BinWritterRef(ss));
  std::string d = ss.str();
  const size_t len = d.size() - before.size(), kept = r.chance(1, 4) ? r.below(std::min<size_t>(len, 33)) : r.chance(1, 3) ? len - 1 - r.below(std::min<size_t>(len, 16)) : r.below(len);
  d.resize(before.size() + kept);
  ReflectorIO in;
  size_t nc = 0, ne = 0;
  if (r.chance(1, 2)) {
    in.AddClass<SubR>();
    in.AddEnum<EnBits>();
    if (r.chance(1, 2)) { // what was loaded before is no reason to take this
      std::stringstream whole(ss.str());
      whole.seekg(before.size());
      CHECK(in.Load(BinReaderRef(whole)) == 0, "cut-load", "whole database is refused");
    }
    nc = in.Classes().size();
    ne = in.Enums().size();
  }
  std::stringstream is(d);
  is.seekg(before.size());
  const int rc = in.Load(BinReaderRef(is));
  CHECK(rc != 0 && rc != 2, "cut-taken", "%zu of %zu bytes: result %d", kept, len, rc);
  CHECK(in.Classes().size() == nc && in.Enums().size() == ne, "cut-classes", "%zu of %zu bytes: refused database left classes", kept, len);
  std::stringstream again;
  in.Save(BinWritterRef(again)); // what it had is still whole
  event("cut");
  distinct(kept * 131 + len);
}
MON_MAIN
