// C15: hostile XML documents loaded into reflected objects.
#include "datas/reflector_xml.hpp"
#include "refl_fixture.hpp"
#include "refl_print.hpp"
#include <sstream>
using namespace mon;

struct Target {
  const Mem *m = nullptr;
  bool hasIndex = false;
  long long index = 0;
};
// what a node or attribute name addresses, worked out from the member table
static Target resolve(const std::string &full, bool v2) {
  Target t;
  std::string nm = full;
  size_t d = v2 ? full.find('-') : full.npos;
  if (d != full.npos) {
    t.hasIndex = true;
    t.index = atoll(full.c_str() + d + 1);
    nm = full.substr(0, d);
  }
  if (nm.size() > 1 && nm[0] == 'h' && nm[1] == ':') {
    uint32 h = uint32(strtoul(nm.c_str() + 2, nullptr, 16));
    for (auto &m : rcMembers())
      if (JenHash(m.name.c_str()).raw() == h)
        t.m = &m;
    if (!t.m)
      for (auto &m : rcMembers())
        if (m.hasAlias && JenHash(m.alias.c_str()).raw() == h)
          t.m = &m;
    return t;
  }
  for (auto &m : rcMembers())
    if (m.name == nm)
      t.m = &m;
  if (!t.m)
    for (auto &m : rcMembers())
      if (m.hasAlias && m.alias == nm)
        t.m = &m;
  return t;
}
static std::string anyName(Rng &r) {
  auto &ms = rcMembers();
  auto &m = ms[r.below(ms.size())];
  static const char *odd[] = {"sx", "sy", "sz", "d0", "inner", "arr", "ux", "x", "y", "z", "w", "bm16_0", "bm16_1", "bm8_0", "F0", "F63", "i:0",
                              "i:1", "i:99", "i:", "h:", "h:0", "h:zz", "RC", "q"};
  std::string s;
  switch (r.below(12)) {
  case 0: s = odd[r.below(sizeof odd / sizeof *odd)]; break;
  case 1: s = "n" + r.text(r.below(10)); break;
  case 2: s = fmt("h:%X", unsigned(JenHash(m.name.c_str()).raw())); break;
  case 3: s = fmt("h:%x", unsigned(r.u64())); break;
  case 4: s = m.hasAlias ? m.alias : m.name; break;
  default: s = m.name;
  }
  for (auto &ch : s)
    if (ch == ' ')
      ch = '_';
  static const char *idx[] = {"-0", "-1", "-2", "-3", "-4", "-5", "-255", "-256", "-65535", "-65536", "-4294967295", "-4294967296", "-18446744073709551615", "--1", "-", "-x", "-1-1"};
  if (r.chance(1, 3))
    s += idx[r.below(sizeof idx / sizeof *idx)];
  return s;
}
static std::string anyValue(Rng &r) {
  static const char *v[] = {"", "0", "1", "-1", "true", "false", "NULL", "F0 | F1", "F63", "|", "B1", "B9", "{1, 2, 3}", "{", "}", "{{1}, {2}}", "[1, 2, 3, 4]",
                            "[1", "99999999999999999999999", "-99999999999999999999", "1e999", "nan", "0x", "0x1g", "{true, false, true, true, true}", "{[1,2],[3,4]}", "{,}", " "};
  switch (r.below(6)) {
  case 0: return fmt("%lld", (long long)r.edgy(64));
  case 1: return r.text(r.below(12), "0123456789.,-+eE{}[]|xXaF \t");
  case 2: return "t" + r.text(r.len(80, 3000));
  default: return v[r.below(sizeof v / sizeof *v)];
  }
}
static void grow(Rng &r, pugi::xml_node n, int depth) {
  for (size_t k = r.below(depth ? 4 : 14); k; k--)
    n.append_attribute(anyName(r).c_str()).set_value(anyValue(r).c_str());
  for (size_t k = r.below(depth ? 4 : 14); k; k--)
    switch (r.below(8)) {
    case 0: n.append_child(pugi::node_pcdata).set_value(anyValue(r).c_str()); break;
    case 1: n.append_child(pugi::node_comment).set_value("c"); break;
    case 2: n.append_child(pugi::node_cdata).set_value(anyValue(r).c_str()); break;
    default: {
      auto ch = n.append_child(anyName(r).c_str());
      if (r.chance(2, 3))
        ch.text().set(anyValue(r).c_str());
      if (depth < 4 && r.chance(1, 2))
        grow(r, ch, depth + 1);
    }
    }
}

MON_SECTION(docs, 6000, 300000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox b(r);
  pugi::xml_document doc;
  auto root = doc.append_child("RC");
  grow(r, root, 0);
  bool v2 = r.chance(2, 3);
  std::stringstream s;
  root.print(s, "", pugi::format_raw);
  const std::string text = s.str();
  note(fmt("%s %s", v2 ? "v2" : "v1", text.substr(0, 400).c_str()));
  const std::string raw0 = b.raw();
  const auto str0 = b.strings();
  if (r.chance(1, 2))
    v2 ? ReflectorXMLUtil::LoadV2(*b.o, root) : ReflectorXMLUtil::Load(*b.o, root);
  else
    v2 ? ReflectorXMLUtil::LoadV2(*b.o, doc, true) : ReflectorXMLUtil::Load(*b.o, doc, true);
  // which members may have changed
  std::vector<bool> may(rcMembers().size());
  auto mark = [&](const std::string &name, bool attr) {
    Target t = resolve(name, v2);
    if (!t.m)
      return;
    // out of range item (-1 stands for the whole) (-1 stands for none) of an array addresses nothing
    if (t.hasIndex && t.index != -1 && t.m->n && (attr || t.m->kind == MK::Class || t.m->kind == MK::Bits) &&
        (t.index < 0 || uint64(t.index) >= t.m->n)) {
      event("bad-index");
      return;
    }
    may[t.m - &rcMembers()[0]] = true;
  };
  if (v2)
    for (auto a : root.attributes())
      mark(a.name(), true);
  for (auto n : root.children())
    mark(n.name(), false);
  const std::string raw1 = b.raw();
  std::string left0 = raw0, left1 = raw1;
  for (size_t k = 0; k < may.size(); k++) {
    auto &m = rcMembers()[k];
    size_t sz = m.size * (m.n ? m.n : 1);
    bool isStr = m.kind == MK::Str;
    if (may[k] || isStr) {
      memset(&left0[m.off], 0, sz);
      memset(&left1[m.off], 0, sz);
    }
    if (m.kind == MK::CStr || !m.clsRegistered || (m.en && !m.en->registered))
      CHECK(!raw0.compare(m.off, sz, raw1, m.off, sz), "unsupported", "%s changed", m.name.c_str());
    if (!may[k] && isStr)
      for (size_t i = 0; i < (m.n ? m.n : 1); i++) {
        auto &now = *(const std::string *)((const char *)b.o + m.off + i * m.size);
        auto &was = m.n ? str0[1 + i] : str0[0];
        CHECK(now == was, "string", "%s[%zu] changed to '%s'", m.name.c_str(), i, esc(now).c_str());
      }
  }
  if (left0 != left1) {
    size_t p = 0;
    while (left0[p] == left1[p])
      p++;
    std::string who = "bytes between members";
    for (auto &m : rcMembers())
      if (p >= m.off && p < m.off + m.size * (m.n ? m.n : 1))
        who = m.name;
    CHECK(false, "confined", "%s: offset %zu (%s) changed but isn't addressed, %s", v2 ? "v2" : "v1", p, who.c_str(), esc(text).c_str());
  }
  eval();
  size_t n = 0;
  for (bool x : may)
    n += x;
  event("members-addressed", n);
  event(v2 ? "v2" : "v1");
  if (raw0 != raw1)
    event("changed");
  distinct(hashBytes(text.data(), text.size()));
}

// documents that address parts of members by item, axis, flag and nested member, mixed with parts that do not exist:
// exactly the addressed bytes get exactly the given values
static void poke(std::string &raw, size_t off, MK kind, size_t size, int v) {
  if (kind == MK::Float) {
    if (size == 4) {
      float f = float(v);
      memcpy(&raw[off], &f, 4);
    } else {
      double f = v;
      memcpy(&raw[off], &f, 8);
    }
  } else if (kind == MK::Bool)
    raw[off] = char(v & 1);
  else {
    uint64 u = v;
    memcpy(&raw[off], &u, size);
  }
}
static std::string valueText(MK kind, int v) { return kind == MK::Bool ? (v & 1 ? "true" : "false") : fmt("%d", v); }
static void pokeSub(Rng &r, pugi::xml_node n, std::string &want, size_t at) {
  if (r.chance(1, 2)) {
    int v = r.below(100);
    n.append_attribute("sx").set_value(v);
    poke(want, at + offsetof(SubR, sx), MK::Int, 4, v);
  }
  if (r.chance(1, 3))
    n.append_attribute(r.chance(1, 2) ? "sq" : "sx2").set_value(7);
  if (r.chance(1, 2)) {
    int v = r.below(100);
    n.append_attribute("sy").set_value(v);
    poke(want, at + offsetof(SubR, sy), MK::Float, 4, v);
  }
  for (int k = 0; k < 4; k++) // last one does not exist
    if (r.chance(1, 3)) {
      int v = r.below(100);
      n.append_attribute(fmt("sz-%d", k).c_str()).set_value(v);
      if (k < 3)
        poke(want, at + offsetof(SubR, sz) + k, MK::UInt, 1, v);
    }
}
MON_SECTION(parts, 4000, 200000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox b(r);
  pugi::xml_document doc;
  auto root = doc.append_child("RC");
  std::string want = b.raw();
  const auto str0 = b.strings();
  auto &ms = rcMembers();
  for (size_t k = 0; k < ms.size(); k++) {
    auto &m = ms[k];
    if (r.chance(2, 3) || m.kind == MK::Str || m.kind == MK::CStr || (m.en && m.kind == MK::Enum) || m.kind == MK::Bits || m.name == "deep" || !m.clsRegistered)
      continue;
    const std::string nm = m.hasAlias && r.chance(1, 2) ? fmt("h:%X", unsigned(JenHash(m.alias.c_str()).raw())) : m.name;
    for (size_t i = 0; i < (m.n ? m.n + 2 : 1); i++) { // two of them do not exist
      if (m.n && r.chance(1, 2))
        continue;
      const std::string item = m.n ? fmt("%s-%zu", nm.c_str(), i < m.n ? i : i == m.n ? i : size_t(100000)) : nm;
      const bool live = !m.n || i < m.n;
      const size_t at = m.off + i * m.size;
      event(live ? "live-parts" : "missing-items");
      switch (m.kind) {
      case MK::Vec: {
        auto n = root.append_child(item.c_str());
        static const char *axes[] = {"x", "y", "z", "w", "unit", "_", "a"};
        bool any = false;
        for (size_t a = 0; a < 7; a++)
          if (r.chance(1, 2)) {
            any = true;
            int v = r.below(100);
            n.append_attribute(axes[a]).set_value(v);
            if (live && a < m.vn)
              poke(want, at + a * m.vsize, m.vkind, m.vsize, v);
            else
              event("missing-axes");
          }
        if (!any)
          root.remove_child(n);
        break;
      }
      case MK::Flags: {
        auto n = root.append_child(item.c_str());
        uint64 u = 0;
        n.append_attribute("Q9").set_value(r.chance(1, 2) ? "true" : "false");
        for (auto &f : m.en->items)
          if (f.second < m.size * 8 && r.chance(1, 2)) {
            const bool on = r.chance(1, 2);
            n.append_attribute(f.first).set_value(on ? "true" : "false");
            if (on)
              u |= 1ull << f.second;
          }
        if (live)
          memcpy(&want[at], &u, m.size);
        break;
      }
      case MK::Class:
        if (!strcmp(m.cls, "SubR")) {
          auto n = root.append_child(item.c_str());
          std::string away = want;
          pokeSub(r, n, live ? want : away, live ? at : ms[0].off);
        }
        break;
      default: {
        int v = r.below(100);
        root.append_attribute(item.c_str()).set_value(valueText(m.kind, v).c_str());
        if (live)
          poke(want, at, m.kind, m.size, v);
      }
      }
    }
  }
  std::stringstream s;
  root.print(s, "", pugi::format_raw);
  const std::string text = s.str();
  note(text.substr(0, 500));
  ReflectorXMLUtil::LoadV2(*b.o, root);
  std::string got = b.raw();
  for (auto &m : ms)
    if (m.kind == MK::Str) // compared by value
      memset(&got[m.off], 0, m.size * (m.n ? m.n : 1)), memset(&want[m.off], 0, m.size * (m.n ? m.n : 1));
  CHECK(b.strings() == str0, "part strings", "%s", esc(text).c_str());
  if (got != want) {
    size_t p = 0;
    while (got[p] == want[p])
      p++;
    std::string who = "bytes between members";
    for (auto &m : ms)
      if (p >= m.off && p < m.off + m.size * (m.n ? m.n : 1))
        who = fmt("%s item %zu byte %zu", m.name.c_str(), (p - m.off) / m.size, (p - m.off) % m.size);
    CHECK(false, "parts", "%s is %02x, not %02x: %s", who.c_str(), (unsigned char)got[p], (unsigned char)want[p], esc(text).c_str());
  }
  eval();
  distinct(hashBytes(text.data(), text.size()));
}

// arbitrary text given to the parser, whatever tree comes out is loaded
MON_SECTION(mutated, 3000, 150000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox a(r, true), b(r);
  pugi::xml_document doc;
  bool v2 = r.chance(1, 2);
  v2 ? ReflectorXMLUtil::SaveV2(*a.o, doc, true) : ReflectorXMLUtil::Save(*a.o, doc, true);
  std::stringstream s;
  doc.save(s);
  std::string t = s.str();
  for (size_t n = 1 + r.below(12); n; n--)
    switch (r.below(4)) {
    case 0: t[r.below(t.size())] = char(r.below(256)); break;
    case 1: t.erase(r.below(t.size()), r.below(20)); break;
    case 2: t.insert(r.below(t.size()), t.substr(r.below(t.size()), r.below(60))); break;
    default: t.insert(r.below(t.size()), r.text(r.below(5), "<>/=\"&;-:{}[]|0 "));
    }
  pugi::xml_document d2;
  d2.load_buffer(t.data(), t.size()); // keeps what was parsed before an error
  std::string raw0 = b.raw();
  ((v2 && r.chance(3, 4)) || r.chance(1, 4)) ? ReflectorXMLUtil::LoadV2(*b.o, d2, true) : ReflectorXMLUtil::Load(*b.o, d2, true);
  std::string raw1 = b.raw();
  for (auto &m : rcMembers()) {
    memset(&raw0[m.off], 0, m.size * (m.n ? m.n : 1));
    memset(&raw1[m.off], 0, m.size * (m.n ? m.n : 1));
  }
  CHECK(raw0 == raw1, "gaps", "bytes between members changed");
  event("mutated");
  distinct(hashBytes(t.data(), t.size()));
}
MON_MAIN
