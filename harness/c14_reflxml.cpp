// C14: reflected objects survive XML save and load in every layout.
#include "datas/reflector_xml.hpp"
#include "refl_io.hpp"
#include <sstream>
using namespace mon;

struct Plain : ReflectorBase<Plain> {
  int32 num;
  uint8 arr[3];
  float fl;
  std::string text;
  es::Flags<EnBits, uint32> flags;
  Vector2 vecs[2];
  EnB en;
  SubR sub;
  SubR subs[2];
};
REFLECTOR_CREATE(Plain, 0, num, arr, fl, text, flags, vecs, en, sub, subs);
template <class T> struct Tpl : ReflectorBase<Tpl<T>> {
  int32 num;
  T arr[3];
};
REFLECTOR_CREATE((Tpl<int16>), 1, TEMPLATE, num, arr);
struct Partial : ReflectorBase<Partial> {
  int32 before;
  SubUnreg un;
  SubUnreg uns[2];
  const char *cs;
  int32 after;
};
REFLECTOR_CREATE(Partial, 1, VARNAMES, before, un, uns, cs, after);

static const char *const ALPHA = "abcXYZ019 <>&'\"=/;:#%()-_.\xc3\xa9";
static std::string txt(Rng &r) {
  std::string s = r.text(r.len(30, 3000), ALPHA);
  size_t b = s.find_first_not_of(' ');
  s = b == s.npos ? "" : s.substr(b);
  // whole characters only
  std::string o;
  for (size_t i = 0; i < s.size(); i++)
    if ((unsigned char)s[i] >= 0x80)
      o += "\xc3\xa9";
    else
      o += s[i];
  return o;
}
static std::string plainText(Rng &r) { return "s" + r.text(r.len(20, 3000)); }

enum Layout { V1, V2, V2A, V2AS };
static const char *const LN[] = {"v1", "v2", "v2a", "v2a+strings"};
static pugi::xml_node save(const Reflector &o, pugi::xml_node n, Layout l, bool cls) {
  switch (l) {
  case V1: return ReflectorXMLUtil::Save(o, n, cls);
  case V2: return ReflectorXMLUtil::SaveV2(o, n, cls);
  default: {
    ReflectorXMLUtil::flag_type f;
    if (cls)
      f += ReflectorXMLUtil::Flags_ClassNode;
    if (l == V2AS)
      f += ReflectorXMLUtil::Flags_StringAsAttribute;
    return ReflectorXMLUtil::SaveV2a(o, n, f);
  }
  }
}
static pugi::xml_node load(Reflector &o, pugi::xml_node n, Layout l, bool cls) {
  return l == V1 ? ReflectorXMLUtil::Load(o, n, cls) : ReflectorXMLUtil::LoadV2(o, n, cls);
}
static std::string dump(pugi::xml_node n) {
  std::stringstream s;
  n.print(s, "", pugi::format_raw);
  return s.str();
}
// DOM -> text -> DOM
static void reparse(Rng &r, pugi::xml_document &doc) {
  std::stringstream s;
  static const unsigned fm[] = {pugi::format_raw, pugi::format_indent, pugi::format_indent | pugi::format_indent_attributes,
                                pugi::format_indent | pugi::format_write_bom};
  doc.save(s, "\t", fm[r.below(4)]);
  pugi::xml_document d2;
  std::string t = s.str();
  auto res = d2.load_buffer(t.data(), t.size());
  CHECKR(bool(res), "reparse", "saved document is not well formed: %s", res.description());
  doc.reset(d2);
}
static std::string whole(const Mem &m, const IO &o) {
  bool kn;
  std::string s;
  if (!m.n)
    return textOfElement(m, (const char *)&o + m.off, kn);
  for (size_t i = 0; i < m.n; i++)
    s += (i ? ", " : "{") + textOfElement(m, (const char *)&o + m.off + i * m.size, kn);
  return s + "}";
}

MON_SECTION(io, 3000, 120000) {
  quietPrinter();
  auto &r = c.rng;
  IOBox a(r, true), b(r, true);
  a.o->str = txt(r);
  if (a.o->str.empty())
    b.o->str.clear();
  for (auto &s : a.o->astr)
    s = plainText(r);
  Layout l = Layout(r.below(4));
  bool cls = r.chance(1, 2), text = r.chance(1, 2);
  note(fmt("%s %s %s", LN[l], cls ? "class node" : "given node", text ? "text" : "dom"));
  pugi::xml_document doc;
  auto root = doc.append_child("root");
  if (cls)
    for (size_t n = r.below(3); n; n--)
      root.append_child(r.chance(1, 2) ? "SubR" : "other").append_child("i32").text().set("1234");
  auto n = save(*a.o, root, l, cls);
  CHECKR(cls ? n.parent() == root && std::string(n.name()) == "IO" : n == root, "node", "wrong node returned: %s", n.name());
  // shape of plain members
  for (auto &m : ioMembers()) {
    if (m.kind == MK::Class || m.kind == MK::Bits)
      continue;
    bool scalar = m.kind != MK::Flags && m.kind != MK::Vec;
    if (l == V1) {
      std::string got = n.child(m.name.c_str()).text().get(), want = whole(m, *a.o);
      CHECK(got == want, "v1-text", "%s is '%s', not '%s'", m.name.c_str(), esc(got).c_str(), esc(want).c_str());
    } else if (scalar && m.kind != MK::Str) {
      for (size_t i = 0; i < (m.n ? m.n : 1); i++) {
        bool kn;
        std::string nm = m.name + (m.n ? fmt("-%zu", i) : "");
        std::string got = n.attribute(nm.c_str()).value(), want = textOfElement(m, (const char *)a.o + m.off + i * m.size, kn);
        CHECK(got == want, "v2-text", "%s is '%s', not '%s'", nm.c_str(), esc(got).c_str(), esc(want).c_str());
      }
    } else if (m.kind == MK::Str && !m.n) {
      std::string got = l == V2AS ? n.attribute(m.name.c_str()).value() : n.child(m.name.c_str()).text().get();
      CHECK(got == a.o->str, "v2-string", "string is '%s', not '%s'", esc(got).c_str(), esc(a.o->str).c_str());
    }
  }
  if (text) {
    reparse(r, doc);
    root = doc.child("root");
  }
  auto ln = load(*b.o, root, l, cls);
  CHECKR(!ln.empty() && std::string(ln.name()) == (cls ? "IO" : "root"), "load-node", "%s: loaded from '%s'", LN[l], ln.name());
  std::string df = diffIO(*a.o, *b.o, true);
  CHECK(df.empty(), "load", "%s %s: %s", LN[l], text ? "text" : "dom", df.c_str());
  {
    std::string en = std::string("layout-") + LN[l];
    event(en.c_str());
  }
  event(text ? "through-text" : "through-dom");
  std::string d = dump(doc);
  distinct(hashBytes(d.data(), d.size()));
}

// class without names, members named by hash
static void fillPlain(Rng &r, Plain &p) {
  p.num = int32(r.edgy(32));
  for (auto &x : p.arr)
    x = uint8(r.u64());
  ObjBox::fillFloat(r, (char *)&p.fl, 4, true);
  p.text = "x" + txt(r);
  uint32 fv = 0;
  for (auto &i : edBits().items)
    if (i.second < 32 && r.chance(1, 3))
      fv |= 1u << i.second;
  memcpy((void *)&p.flags, &fv, 4);
  for (auto &v : p.vecs)
    v = Vector2(float(r.range(-100, 100)), float(r.range(-100, 100)));
  p.en = EnB(ObjBox::rndEnum(r, edB()));
  ObjBox::fillSub(r, (char *)&p.sub, true);
  for (auto &s : p.subs)
    ObjBox::fillSub(r, (char *)&s, true);
}
MON_SECTION(unnamed, 2000, 60000) {
  quietPrinter();
  refRegister();
  static RegisterReflectedTypes<Plain> reg;
  (void)reg;
  auto &r = c.rng;
  Plain a{}, b{};
  fillPlain(r, a);
  fillPlain(r, b);
  Layout l = Layout(r.below(4));
  bool cls = r.chance(1, 2);
  pugi::xml_document doc;
  auto root = doc.append_child("root");
  if (cls && r.chance(1, 2))
    root.append_child("h:12AB").append_child("num").text().set("1234");
  auto n = save(a, root, l, cls);
  if (cls)
    CHECK(std::string(n.name()) == "h:0", "hash-node", "class node is %s", n.name());
  if (r.chance(1, 2)) {
    reparse(r, doc);
    root = doc.child("root");
  }
  CHECKR(!load(b, root, l, cls).empty(), "hash-load", "class node not found");
  bool ok = a.num == b.num && !memcmp(a.arr, b.arr, 3) && sameF((char *)&a.fl, (char *)&b.fl, 4, true) && a.text == b.text &&
            !memcmp((void *)&a.flags, (void *)&b.flags, 4) && !memcmp((void *)a.vecs, (void *)b.vecs, sizeof a.vecs) && a.en == b.en && sameSub(a.sub, b.sub, true) &&
            sameSub(a.subs[0], b.subs[0], true) && sameSub(a.subs[1], b.subs[1], true);
  CHECK(ok, "hash-values", "%s: values differ, document %s", LN[l], dump(doc).c_str());
  event("unnamed");
  std::string d = dump(doc);
  distinct(hashBytes(d.data(), d.size()));
}

MON_SECTION(templates, 1000, 20000) {
  quietPrinter();
  auto &r = c.rng;
  Tpl<int16> a{}, b{};
  a.num = int32(r.edgy(32));
  for (auto &x : a.arr)
    x = int16(r.edgy(16));
  Layout l = Layout(r.below(4));
  pugi::xml_document doc;
  doc.append_child("h:12AB").append_child("num").text().set("1234");
  auto n = save(a, doc, l, true);
  CHECK(std::string(n.name()) == fmt("h:%X", unsigned(JenHash("Tpl<int16>").raw())), "template-node", "class node is %s", n.name());
  if (r.chance(1, 2))
    reparse(r, doc);
  load(b, doc, l, true);
  CHECK(a.num == b.num && !memcmp(a.arr, b.arr, sizeof a.arr), "template", "%s: values differ, document %s", LN[l], dump(doc).c_str());
  event("templates");
  std::string d = dump(doc);
  distinct(hashBytes(d.data(), d.size()));
}

// the right class node among others, none: nothing changes
MON_SECTION(pick, 1500, 20000) {
  quietPrinter();
  auto &r = c.rng;
  IOBox a(r, true), b(r, true), b0(r, true), s0(r, true);
  a.o->str = "t" + txt(r);
  for (auto &s : a.o->astr)
    s = plainText(r);
  Layout l = Layout(r.below(4));
  pugi::xml_document doc;
  Plain p{};
  fillPlain(r, p);
  size_t n = r.below(4), at = r.below(n + 2);
  for (size_t i = 0; i <= n; i++)
    if (i == at)
      save(*a.o, doc, l, true);
    else if (r.chance(1, 2))
      save(p, doc, l, true);
    else
      doc.append_child(pugi::node_comment).set_value("IO");
  std::string before[2] = {dump(doc), ""};
  // b0 keeps a copy of b
  for (auto &m : ioMembers())
    for (size_t i = 0; i < (m.n ? m.n : 1); i++) {
      char *x = (char *)b0.o + m.off + i * m.size, *y = (char *)b.o + m.off + i * m.size;
      if (m.kind == MK::Str)
        *(std::string *)x = *(std::string *)y;
      else
        memcpy(x, y, m.size);
    }
  auto ln = load(*b.o, doc, l, true);
  if (at <= n) {
    CHECK(std::string(ln.name()) == "IO", "pick", "class node not found");
    std::string df = diffIO(*a.o, *b.o, true);
    CHECK(df.empty(), "pick-load", "%s: %s", LN[l], df.c_str());
    event("picked");
  } else {
    CHECK(ln.empty(), "pick-none", "'%s' found", ln.name());
    std::string df = diffIO(*b0.o, *b.o, false);
    CHECK(df.empty(), "pick-unchanged", "%s: %s", LN[l], df.c_str());
    event("none");
  }
  CHECK(dump(doc) == before[0], "pick-doc", "load changed the document");
  distinct(hashBytes(before[0].data(), before[0].size()));
}

// members without a stored form don't disturb the others
MON_SECTION(partial, 1500, 20000) {
  quietPrinter();
  auto &r = c.rng;
  Partial a{}, b{};
  a.before = int32(r.edgy(32));
  a.after = int32(r.edgy(32));
  a.cs = r.chance(1, 4) ? nullptr : ObjBox::cs(r.below(4));
  b.cs = "kept";
  b.un.ux = b.uns[0].ux = b.uns[1].ux = 77;
  Layout l = Layout(r.below(4));
  pugi::xml_document doc;
  save(a, doc, l, true);
  if (r.chance(1, 2))
    reparse(r, doc);
  load(b, doc, l, true);
  CHECK(b.before == a.before && b.after == a.after, "partial", "%s: %d %d, not %d %d", LN[l], b.before, b.after, a.before, a.after);
  CHECK(!strcmp(b.cs, "kept") && b.un.ux == 77 && b.uns[0].ux == 77 && b.uns[1].ux == 77, "partial-kept", "%s: unsupported members changed", LN[l]);
  event("partial");
  std::string d = dump(doc);
  distinct(hashBytes(d.data(), d.size()));
}
// arrays longer than a byte can count, and every flag of an enumeration with long names
MON_SECTION(longarrays, 12, 200) {
  auto &r = c.rng;
  quietPrinter();
  longRegister();
  std::unique_ptr<LongArr> a(new LongArr()), b(new LongArr());
  longFill(r, *a), longFill(r, *b);
  Layout l = Layout(r.below(4));
  const bool cls = r.chance(1, 2);
  ReflectorWrap<const LongArr> ra(*a);
  ReflectorWrap<LongArr> rb(*b);
  pugi::xml_document doc;
  pugi::xml_node n = cls ? doc.append_child("root") : doc.append_child("node");
  save(ra, n, l, cls);
  if (r.chance(1, 2))
    reparse(r, doc);
  load(rb, doc.first_child(), l, cls);
  const std::string d = longDiff(*a, *b);
  CHECK(d.empty(), "long-array", "%s: %s", LN[l], d.c_str());
  std::string t = dump(doc);
  distinct(hashBytes(t.data(), t.size()));
  event("long-arrays");
}
MON_MAIN
