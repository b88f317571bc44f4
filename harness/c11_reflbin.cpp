// C11: reflected objects survive a binary save and load; stored form is self contained per member.
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/reflector_io.hpp"
#include "refl_io.hpp"
#include <memory>
#include <sstream>
using namespace mon;

struct IOUnreg : ReflectorBase<IOUnreg> {
  int32 before;
  SubUnreg un;
  SubUnreg uns[2];
  int32 after;
};
REFLECTOR_CREATE(IOUnreg, 1, VARNAMES, before, un, uns, after);
struct IOCstr : ReflectorBase<IOCstr> {
  int32 before;
  const char *cs;
  int32 after;
};
REFLECTOR_CREATE(IOCstr, 1, VARNAMES, before, cs, after);

MON_SECTION(longarrays, 40, 1000) {
  quietPrinter();
  longRegister();
  auto &r = c.rng;
  std::unique_ptr<LongArr> a(new LongArr()), b(new LongArr());
  longFill(r, *a), longFill(r, *b);
  const bool swap = r.chance(1, 2);
  std::stringstream ss;
  BinWritterRef wr(ss);
  wr.SwapEndian(swap);
  CHECK(ReflectorBinUtil::Save(*a, wr) == 0, "long-save", "swap %d", swap);
  BinReaderRef rd(ss);
  rd.SwapEndian(swap);
  CHECK(ReflectorBinUtil::Load(*b, rd) == 0, "long-load", "swap %d", swap);
  const std::string d = longDiff(*a, *b);
  CHECK(d.empty(), "long-differs", "swap %d: %s", swap, d.c_str());
  event("long");
  const std::string all = ss.str();
  distinct(hashBytes(all.data(), all.size()));
}

// Independent reader of the stored form.
struct Item {
  uint32 hash;
  std::string data;
};
static bool varint(const std::string &s, size_t &p, uint64 &v) {
  v = 0;
  for (int i = 0; i < 9; i++) {
    if (p >= s.size())
      return false;
    unsigned char ch = (unsigned char)s[p++];
    if (i == 8) {
      v |= uint64(ch) << 56;
      return true;
    }
    v |= uint64(ch & 0x7f) << (7 * i);
    if (!(ch & 0x80))
      return true;
  }
  return true;
}
static std::string enc(uint64 v) {
  std::string r;
  for (int i = 0; i < 8; i++) {
    if (!(v >> 7)) {
      r += char(v);
      return r;
    }
    r += char((v & 0x7f) | 0x80);
    v >>= 7;
  }
  r += char(v);
  return r;
}
static bool parseClass(const std::string &s, size_t &p, std::vector<Item> &items) {
  uint64 size, n;
  if (!varint(s, p, size) || p + size > s.size())
    return false;
  size_t end = p + size;
  if (!varint(s, p, n))
    return false;
  for (uint64 i = 0; i < n; i++) {
    if (p + 4 > end)
      return false;
    Item it;
    memcpy(&it.hash, s.data() + p, 4);
    p += 4;
    uint64 sz;
    if (!varint(s, p, sz) || p + sz > end)
      return false;
    it.data = s.substr(p, sz);
    p += sz;
    items.push_back(it);
  }
  return p == end;
}
static std::string buildClass(uint32 hash, const std::vector<Item> &items) {
  std::string body = enc(items.size());
  for (auto &i : items)
    body += std::string((const char *)&i.hash, 4) + enc(i.data.size()) + i.data;
  return std::string((const char *)&hash, 4) + enc(body.size()) + body;
}
static std::string save(const Reflector &o, bool swap, const std::string &prefix, int &rc) {
  std::stringstream ss(prefix, std::ios::in | std::ios::out | std::ios::binary | std::ios::ate);
  BinWritterRef wr(ss);
  wr.SwapEndian(swap);
  rc = ReflectorBinUtil::Save(o, wr);
  return ss.str();
}

MON_SECTION(round, 6000, 120000) {
  quietPrinter();
  auto &r = c.rng;
  IOBox a(r), b(r);
  a.o->str = r.bytes(r.below(200));
  for (auto &s : a.o->astr)
    s = r.bytes(r.below(20));
  bool swap = r.chance(1, 4);
  std::string prefix = r.bytes(r.below(20)), tail = r.bytes(r.below(9));
  int rc;
  std::string d = save(*a.o, swap, prefix, rc);
  CHECKR(rc == 0, "save-code", "%d", rc);
  size_t n = d.size();
  d += tail;
  std::istringstream is(d);
  BinReaderRef rd(is);
  rd.SwapEndian(swap);
  rd.Seek(prefix.size());
  rc = ReflectorBinUtil::Load(*b.o, rd);
  CHECK(rc == 0, "load-code", "%d", rc);
  CHECK(rd.Tell() == n, "cursor", "at %zu of %zu", rd.Tell(), n);
  std::string df = diffIO(*a.o, *b.o, false);
  CHECK(df.empty(), "differs", "swap %d: %s", swap, df.c_str());
  event(swap ? "swapped" : "native");
  distinct(hashBytes(d.data(), d.size()));
  // the same object again gives the same bytes
  std::string d2 = save(*b.o, swap, prefix, rc);
  CHECK(d2 + tail == d, "stable", "second save differs");
}

// through generic views, nested objects saved on their own
MON_SECTION(views, 3000, 60000) {
  quietPrinter();
  auto &r = c.rng;
  IOBox a(r), b(r);
  size_t which = r.below(4), idx = 0;
  const char *nm = which == 0 ? "sub" : which == 1 ? "deep" : which == 2 ? "asub" : "adeep";
  if (which > 1)
    idx = r.below(which == 2 ? 3 : 2);
  ReflectedInstance ia = a.o->GetReflectedSubClass(JenHash(es::string_view(nm)), idx),
                    ib = b.o->GetReflectedSubClass(JenHash(es::string_view(nm)), idx);
  ReflectorPureWrap wa(ia), wb(ib);
  int rc;
  std::string d = save(wa, false, "", rc);
  CHECKR(rc == 0, "save-code", "%s %d", nm, rc);
  std::istringstream is(d);
  rc = ReflectorBinUtil::Load(wb, BinReaderRef(is));
  CHECK(rc == 0, "load-code", "%s %d", nm, rc);
  for (auto &m : ioMembers())
    if (m.name == nm) {
      const char *x = (const char *)a.o + m.off + idx * m.size, *y = (const char *)b.o + m.off + idx * m.size;
      CHECK(sameItem(m, x, y, false), "differs", "%s[%zu]", nm, idx);
    }
  event("nested-alone");
  distinct(hashBytes(d.data(), d.size()));
}

// members reordered, renamed or stored larger than needed: matched members load, others keep their value
MON_SECTION(evolve, 5000, 100000) {
  quietPrinter();
  auto &r = c.rng;
  IOBox a(r), b(r), b0(r);
  int rc;
  std::string d = save(*a.o, false, "", rc);
  uint32 hash;
  memcpy(&hash, d.data(), 4);
  size_t p = 4;
  std::vector<Item> items;
  CHECKR(rc == 0 && parseClass(d, p, items) && p == d.size(), "format", "stored form is not hash, size, count and members");
  auto &ms = ioMembers();
  CHECKR(items.size() == ms.size(), "count", "%zu members stored", items.size());
  for (size_t i = 0; i < ms.size(); i++)
    CHECK(items[i].hash == JenHash(es::string_view(ms[i].name)).raw(), "order", "member %zu is not %s", i, ms[i].name.c_str());
  std::vector<bool> gone(ms.size());
  std::vector<size_t> perm(ms.size());
  for (size_t i = 0; i < perm.size(); i++)
    perm[i] = i;
  for (size_t i = perm.size() - 1; i; i--)
    std::swap(perm[i], perm[r.below(i + 1)]);
  std::vector<Item> out;
  for (size_t k : perm) {
    Item it = items[k];
    if (r.chance(1, 6)) {
      it.hash = uint32(r.u64()) | 1;
      for (auto &m : ms)
        if (JenHash(es::string_view(m.name)).raw() == it.hash)
          return;
      gone[k] = true;
      if (r.chance(1, 2))
        it.data = r.bytes(r.len(40, 30000));
    } else if (r.chance(1, 6))
      it.data += r.bytes(1 + r.len(300, 30000)); // newer, longer form: the known beginning is loaded
    out.push_back(it);
  }
  std::string e = buildClass(hash, out), tail = r.bytes(r.below(5));
  // b keeps its own values where nothing matches
  std::string d0 = save(*b.o, false, "", rc);
  std::istringstream is0(d0);
  ReflectorBinUtil::Load(*b0.o, BinReaderRef(is0));
  std::istringstream is(e + tail);
  BinReaderRef rd(is);
  rc = ReflectorBinUtil::Load(*b.o, rd);
  CHECK(rc == 0, "load-code", "%d", rc);
  CHECK(rd.Tell() == e.size(), "cursor", "at %zu of %zu", rd.Tell(), e.size());
  std::string df = diffIO(*a.o, *b.o, false, &gone);
  CHECK(df.empty(), "differs", "%s", df.c_str());
  std::vector<bool> inv(gone);
  inv.flip();
  df = diffIO(*b0.o, *b.o, false, &inv);
  CHECK(df.empty(), "unmatched-changed", "%s", df.c_str());
  event("evolved");
  distinct(hashBytes(e.data(), e.size()));
}

// refusals
MON_SECTION(refuse, 2000, 20000) {
  quietPrinter();
  auto &r = c.rng;
  IOBox a(r), b(r), b0(r);
  int rc;
  std::string d = save(*a.o, false, "", rc), d0 = save(*b.o, false, "", rc);
  std::istringstream is0(d0);
  ReflectorBinUtil::Load(*b0.o, BinReaderRef(is0));
  std::string e = d, prefix = r.bytes(r.below(9));
  if (r.chance(1, 2)) { // another class
    e[r.below(4)] ^= char(1 + r.below(255));
    std::istringstream is(prefix + e);
    BinReaderRef rd(is);
    rd.Seek(prefix.size());
    rc = ReflectorBinUtil::Load(*b.o, rd);
    CHECK(rc != 0, "other-class", "loaded");
    CHECK(rd.Tell() == prefix.size(), "other-class-cursor", "at %zu", rd.Tell());
    event("other-class");
  } else { // other number of members
    size_t p = 4;
    std::vector<Item> items;
    parseClass(d, p, items);
    if (r.chance(1, 2))
      items.pop_back();
    else
      items.push_back({123, "abc"});
    uint32 h;
    memcpy(&h, d.data(), 4);
    e = buildClass(h, items);
    std::istringstream is(e + "tail");
    BinReaderRef rd(is);
    rc = ReflectorBinUtil::Load(*b.o, rd);
    CHECK(rc != 0, "other-count", "loaded");
    CHECK(rd.Tell() == e.size(), "other-count-cursor", "at %zu of %zu", rd.Tell(), e.size());
    event("other-count");
  }
  std::string df = diffIO(*b0.o, *b.o, false);
  CHECK(df.empty(), "refused-changed", "%s", df.c_str());
  distinct(hashBytes(e.data(), e.size()));
  // members without a stored form
  IOUnreg u;
  u.before = 1, u.un.ux = 2, u.uns[0].ux = u.uns[1].ux = 3, u.after = 4;
  save(u, false, "", rc);
  CHECK(rc != 0, "unregistered", "saved");
  IOCstr s;
  s.before = 1, s.cs = "x", s.after = 2;
  save(s, false, "", rc);
  CHECK(rc != 0, "cstring", "saved");
  // stored by someone who knows the class: the rest loads and the failure is reported
  JenHash ch("IOUnreg");
  auto it = [](const char *n, const std::string &v) { return Item{JenHash(es::string_view(n)).raw(), v}; };
  int32 vb = int32(r.below(60)), va = int32(r.below(60));
  std::string st = buildClass(ch.raw(), {it("before", std::string(1, char(vb))), it("un", r.bytes(r.below(30))),
                                         it("uns", r.bytes(r.below(30))), it("after", std::string(1, char(va)))});
  std::istringstream isu(st);
  BinReaderRef rdu(isu);
  rc = ReflectorBinUtil::Load(u, rdu);
  CHECK(rc != 0, "unregistered-load", "status 0");
  CHECK(u.before == vb && u.after == va && u.un.ux == 2 && u.uns[1].ux == 3, "unregistered-rest", "before %d after %d", u.before, u.after);
  CHECK(rdu.Tell() == st.size(), "unregistered-cursor", "at %zu of %zu", rdu.Tell(), st.size());
  event("no-form");
}
MON_MAIN
