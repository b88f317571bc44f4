// C12: truncated and damaged stored objects.
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/reflector_io.hpp"
#include "refl_io.hpp"
#include <new>
#include <sstream>
using namespace mon;

// A damaged count may ask for any amount; huge requests fail like on a machine out of memory.
static size_t gCap = ~size_t(0);
void *operator new(size_t n) {
  void *p = n > gCap ? nullptr : malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

static bool varint(const std::string &s, size_t &p, uint64 &v) {
  v = 0;
  for (int i = 0; i < 9; i++) {
    if (p >= s.size())
      return false;
    unsigned char ch = (unsigned char)s[p++];
    if (i == 8) {
      v |= uint64(ch) << 56;
      return true;
    }
    v |= uint64(ch & 0x7f) << (7 * i);
    if (!(ch & 0x80))
      return true;
  }
  return true;
}
struct Span {
  size_t h, b, e; // header, payload, end
};
static std::vector<Span> spans(const std::string &d) {
  size_t p = 4;
  uint64 v, n;
  std::vector<Span> r;
  varint(d, p, v);
  varint(d, p, n);
  for (uint64 i = 0; i < n; i++) {
    const size_t h = p;
    p += 4;
    uint64 sz;
    varint(d, p, sz);
    r.push_back({h, p, p + sz});
    p += sz;
  }
  return r;
}
static std::string save(const Reflector &o) {
  std::stringstream ss;
  BinWritterRef wr(ss);
  ReflectorBinUtil::Save(o, wr);
  return ss.str();
}
// load from d, returns false when memory ran out
static bool load(Reflector &o, const std::string &d, int &rc) {
  std::istringstream is(d);
  BinReaderRef rd(is);
  gCap = 1 << 20;
  bool ok = true;
  try {
    rc = ReflectorBinUtil::Load(o, rd);
  } catch (const std::bad_alloc &) {
    ok = false;
  } catch (const std::length_error &) {
    ok = false;
  }
  gCap = ~size_t(0);
  if (!ok)
    event("out-of-memory");
  return ok;
}

static bool hasLengths(size_t k) {
  auto kind = ioMembers()[k].kind;
  return kind == MK::Str || kind == MK::Class;
}

MON_SECTION(cut, 6000, 100000) {
  quietPrinter();
  auto &r = c.rng;
  IOBox a(r), b(r), b0(r);
  std::string d = save(*a.o);
  int rc = 0;
  load(*b0.o, save(*b.o), rc);
  auto sp = spans(d);
  size_t at = r.below(d.size());
  note(fmt("cut at %zu of %zu", at, d.size()));
  if (!load(*b.o, d.substr(0, at), rc))
    return;
  std::vector<bool> skipA(sp.size()), skipB(sp.size());
  for (size_t i = 0; i < sp.size(); i++) {
    skipA[i] = sp[i].e > at;
    skipB[i] = sp[i].h < at; // its header may be there
  }
  std::string df = diffIO(*a.o, *b.o, false, &skipA);
  CHECK(df.empty(), "before-cut", "cut %zu of %zu: %s", at, d.size(), df.c_str());
  df = diffIO(*b0.o, *b.o, false, &skipB);
  CHECK(df.empty(), "after-cut", "cut %zu of %zu: %s", at, d.size(), df.c_str());
  event("cuts");
  distinct(hashBytes(d.data(), at));
}

// Damage inside of one stored member stays there. Members that store lengths
// may ask for more than the stream has, which ends the load; they're left out.
MON_SECTION(member, 8000, 150000) {
  quietPrinter();
  auto &r = c.rng;
  IOBox a(r), b(r);
  std::string d = save(*a.o);
  auto sp = spans(d);
  size_t k;
  do
    k = r.below(sp.size());
  while (hasLengths(k));
  for (size_t n = 1 + r.below(4); n; n--)
    d[sp[k].b + r.below(sp[k].e - sp[k].b)] = r.chance(1, 3) ? char(0xff) : char(r.u64());
  note(fmt("damage in %s", ioMembers()[k].name.c_str()));
  d += r.bytes(2048); // whatever follows the object
  int rc = 0;
  if (!load(*b.o, d, rc))
    return;
  std::vector<bool> skip(sp.size());
  skip[k] = true;
  std::string df = diffIO(*a.o, *b.o, false, &skip);
  CHECK(df.empty(), "spread", "damage in %s changed %s", ioMembers()[k].name.c_str(), df.c_str());
  event("member-damage");
  distinct(hashBytes(d.data(), d.size()));
}

// damage anywhere: ends, inside of the object only
MON_SECTION(anywhere, 8000, 300000) {
  quietPrinter();
  auto &r = c.rng;
  IOBox a(r), b(r);
  std::string d = save(*a.o);
  int how = int(r.below(4));
  if (how == 0)
    for (size_t n = 1 + r.below(8); n; n--)
      d[4 + r.below(d.size() - 4)] = char(r.u64());
  else if (how == 1)
    d.erase(4 + r.below(d.size() - 4), 1 + r.below(10));
  else if (how == 2)
    d.insert(4 + r.below(d.size() - 4), r.bytes(1 + r.below(10)));
  else
    d = d.substr(0, 4) + r.bytes(r.below(300));
  int rc = 0;
  load(*b.o, d, rc);
  event(rc ? "refused" : "taken");
  eval();
  distinct(hashBytes(d.data(), d.size()));
}
MON_MAIN
