// C02: binary reader/writer - every typed write reads back, the bytes are the
// documented ones for the byte order, nothing outside the object is touched.
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/base_128.hpp"
#include "datas/vectors.hpp"
#include "mon.hpp"
#include <algorithm>
#include <memory>
#include <sstream>
#include <map>
using namespace mon;

enum class En8 : uint8 { a, b, c };
enum class En16 : uint16 { a, b, c };
enum class En32 : uint32 { a, b, c };

struct Pod3 { // one byte pieces only
  uint8 a, b, c;
};
struct WithRW {
  uint8 a = 0;
  uint32 b = 0;
  uint16 skipped = 0;
  void Read(BinReaderRef rd) {
    rd.Read(a);
    rd.Read(b);
  }
  void Write(BinWritterRef wr) const {
    wr.Write(a);
    wr.Write(b);
  }
};
struct WithSwap {
  uint32 a = 0;
  uint16 b = 0;
  uint8 c = 0, d = 0;
  void SwapEndian() {
    FByteswapper(a);
    FByteswapper(b);
  }
};
struct WithSwapDir { // distinguishes reading from writing
  uint16 a = 0;
  uint16 b = 0;
  void SwapEndian(bool out) {
    if (out) {
      b = uint16(b + a);
      FByteswapper(a);
      FByteswapper(b);
    } else {
      FByteswapper(a);
      FByteswapper(b);
      b = uint16(b - a);
    }
  }
};

template <class T> static std::string ord(T v, bool sw) {
  std::string r((const char *)&v, sizeof(T));
  if (sw)
    std::reverse(r.begin(), r.end());
  return r;
}
template <class T> static T rnd(Rng &r) {
  uint64_t v = r.edgy(sizeof(T) * 8);
  T o;
  memcpy(&o, &v, sizeof(T));
  return o;
}
static float rndf(Rng &r) {
  uint32_t u = r.u32();
  if ((u & 0x7f800000) == 0x7f800000 && (u & 0x7fffff))
    u &= ~0x7f800000u; // signalling NaNs may be quietened by a register move
  float f;
  memcpy(&f, &u, 4);
  return f;
}
static double rndd(Rng &r) {
  uint64_t u = r.u64();
  if ((u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull)
    u &= ~0x7ff0000000000000ull;
  double f;
  memcpy(&f, &u, 8);
  return f;
}

struct Op {
  std::string name, bytes;
  std::function<bool(BinReaderRef &)> back;
};

template <class T> static bool same(const T &a, const T &b) {
  return !memcmp(&a, &b, sizeof(T));
}

template <class T, class G> static Op scalar(BinWritterRef &wr, bool sw, const char *nm, G gen) {
  T v = gen();
  wr.Write(v);
  return {nm, ord(v, sw), [v](BinReaderRef &rd) {
            // canaries around the destination
            struct {
              uint64_t c0;
              T v;
              unsigned char c1[8];
            } d;
            memset(&d, 0x5c, sizeof d);
            rd.Read(d.v);
            uint64_t want;
            memset(&want, 0x5c, 8);
            return same(d.v, v) && d.c0 == want && !memcmp(d.c1, &want, 8);
          }};
}
template <class T, size_t N, class G>
static Op arr(BinWritterRef &wr, bool sw, const char *nm, G gen) {
  struct A {
    T a[N];
  } v;
  std::string b;
  for (auto &e : v.a) {
    e = gen();
    b += ord(e, sw);
  }
  wr.Write(v.a);
  return {nm, b, [v](BinReaderRef &rd) {
            std::unique_ptr<A> d(new A); // exact heap block
            memset((void *)d.get(), 0x5c, sizeof(A));
            rd.Read(d->a);
            return !memcmp(d->a, v.a, sizeof v.a);
          }};
}
template <class CT> static std::string cnt(size_t n, bool sw) { return ord(CT(n), sw); }
template <> std::string cnt<buint128>(size_t n, bool) {
  std::string r;
  while (n >= 0x80) {
    r += char((n & 0x7f) | 0x80);
    n >>= 7;
  }
  return r + char(n);
}
template <class T, class CT, class G>
static Op vec(BinWritterRef &wr, bool sw, const char *nm, G gen, Rng &r, size_t maxn) {
  std::vector<T> v(sizeof(CT) == 1 && !std::is_class<CT>::value ? r.below(maxn)
                   : sizeof(CT) == 2                            ? r.len(maxn, 0x10000)
                                                                : r.len(maxn, 80000));
  std::string b = cnt<CT>(v.size(), sw);
  for (auto &e : v) {
    e = gen();
    b += ord(e, sw);
  }
  wr.template WriteContainerWCount<CT>(v);
  return {nm, b, [v](BinReaderRef &rd) {
            std::vector<T> d(v.size() % 3 * 2, T(77)); // held something before
            rd.template ReadContainer<CT>(d);
            return d.size() == v.size() && (v.empty() || !memcmp(d.data(), v.data(), v.size() * sizeof(T)));
          }};
}
template <class T, class CT, class G>
static Op vecLambda(BinWritterRef &wr, bool sw, const char *nm, G gen, Rng &r, size_t maxn) {
  std::vector<T> v(sizeof(CT) == 1 && !std::is_class<CT>::value ? r.below(maxn)
                   : sizeof(CT) == 2                            ? r.len(maxn, 0x10000)
                                                                : r.len(maxn, 80000));
  std::string b = cnt<CT>(v.size(), sw);
  for (auto &e : v) {
    e = gen();
    b += ord(e, sw);
    b += ord(T(e ^ 0x55), sw);
  }
  wr.template WriteContainerLambda<CT>(v, [](BinWritterRef w, const T &e) {
    w.Write(e);
    w.Write(T(e ^ 0x55));
  });
  return {nm, b, [v](BinReaderRef &rd) {
            std::vector<T> d(v.size() % 3 * 2, T(77)); // held something before
            bool ok = true;
            rd.template ReadContainerLambda<CT>(d, [&](BinReaderRef q, T &e) {
              T x;
              q.Read(e);
              q.Read(x);
              ok &= x == T(e ^ 0x55);
            });
            return ok && d == v;
          }};
}

static Op makeOp(Rng &r, BinWritterRef &wr, bool sw) {
  switch (r.below(38)) {
  case 0: return scalar<uint8>(wr, sw, "u8", [&] { return rnd<uint8>(r); });
  case 1: return scalar<int8>(wr, sw, "i8", [&] { return rnd<int8>(r); });
  case 2: return scalar<uint16>(wr, sw, "u16", [&] { return rnd<uint16>(r); });
  case 3: return scalar<int16>(wr, sw, "i16", [&] { return rnd<int16>(r); });
  case 4: return scalar<uint32>(wr, sw, "u32", [&] { return rnd<uint32>(r); });
  case 5: return scalar<int32>(wr, sw, "i32", [&] { return rnd<int32>(r); });
  case 6: return scalar<uint64>(wr, sw, "u64", [&] { return rnd<uint64>(r); });
  case 7: return scalar<int64>(wr, sw, "i64", [&] { return rnd<int64>(r); });
  case 8: return scalar<float>(wr, sw, "float", [&] { return rndf(r); });
  case 9: return scalar<double>(wr, sw, "double", [&] { return rndd(r); });
  case 10: return scalar<bool>(wr, sw, "bool", [&] { return r.chance(1, 2); });
  case 11: return scalar<En8>(wr, sw, "enum8", [&] { return rnd<En8>(r); });
  case 12: return scalar<En16>(wr, sw, "enum16", [&] { return rnd<En16>(r); });
  case 13: return scalar<En32>(wr, sw, "enum32", [&] { return rnd<En32>(r); });
  case 14: return arr<uint8, 5>(wr, sw, "u8[5]", [&] { return rnd<uint8>(r); });
  case 15: return arr<uint16, 7>(wr, sw, "u16[7]", [&] { return rnd<uint16>(r); });
  case 16: return arr<uint32, 3>(wr, sw, "u32[3]", [&] { return rnd<uint32>(r); });
  case 17: return arr<int64, 4>(wr, sw, "i64[4]", [&] { return rnd<int64>(r); });
  case 18: return arr<float, 9>(wr, sw, "float[9]", [&] { return rndf(r); });
  case 34: return arr<uint16, 1>(wr, sw, "u16[1]", [&] { return rnd<uint16>(r); });
  case 35: return arr<double, 1>(wr, sw, "double[1]", [&] { return rndd(r); });
  case 36: return arr<uint32, 300>(wr, sw, "u32[300]", [&] { return rnd<uint32>(r); });
  case 37: return arr<uint8, 1>(wr, sw, "u8[1]", [&] { return rnd<uint8>(r); });
  case 19: return vec<uint8, uint8>(wr, sw, "vec<u8>/u8", [&] { return rnd<uint8>(r); }, r, 256);
  case 20: return vec<uint16, uint16>(wr, sw, "vec<u16>/u16", [&] { return rnd<uint16>(r); }, r, 300);
  case 21: return vec<uint32, uint32>(wr, sw, "vec<u32>/u32", [&] { return rnd<uint32>(r); }, r, 70);
  case 22: return vec<int64, uint64>(wr, sw, "vec<i64>/u64", [&] { return rnd<int64>(r); }, r, 70);
  case 23: return vec<float, buint128>(wr, sw, "vec<float>/varint", [&] { return rndf(r); }, r, 400);
  case 24: return vecLambda<uint16, uint32>(wr, sw, "lambda<u16>", [&] { return rnd<uint16>(r); }, r, 60);
  case 25: return vecLambda<uint64, uint8>(wr, sw, "lambda<u64>", [&] { return rnd<uint64>(r); }, r, 60);
  case 26: { // C string
    std::string s = r.text(r.len(40, 90000));
    wr.WriteT(es::string_view(s));
    return {"cstring", s + '\0', [s](BinReaderRef &rd) {
              std::string d;
              rd.ReadString(d);
              return d == s;
            }};
  }
  case 27: { // UTF-16/32 C string
    std::wstring s;
    for (size_t i = r.len(20, 70000); i; i--)
      s += wchar_t(1 + r.below(0xffff));
    std::string b;
    for (auto ch : s)
      b += ord(ch, sw);
    b += ord(wchar_t(0), sw);
    wr.WriteT(es::wstring_view(s));
    return {"cwstring", b, [s](BinReaderRef &rd) {
              std::wstring d;
              rd.ReadString(d);
              return d == s;
            }};
  }
  case 28: {
    std::string s = r.bytes(r.len(60, 0x10000));
    wr.WriteContainerWCount<uint16>(s);
    return {"string/u16", cnt<uint16>(s.size(), sw) + s, [s](BinReaderRef &rd) {
              std::string d = "junk that must go";
              rd.ReadContainer<uint16>(d);
              return d == s;
            }};
  }
  case 29: { // class with own Read/Write: only what it writes
    WithRW v;
    v.a = rnd<uint8>(r);
    v.b = rnd<uint32>(r);
    v.skipped = 0x1111;
    wr.Write(v);
    return {"class-rw", ord(v.a, sw) + ord(v.b, sw), [v](BinReaderRef &rd) {
              WithRW d;
              d.skipped = 0x7777;
              rd.Read(d);
              return d.a == v.a && d.b == v.b && d.skipped == 0x7777;
            }};
  }
  case 30: { // container of such
    std::vector<WithRW> v(r.len(9, 3000));
    std::string b = cnt<uint32>(v.size(), sw);
    for (auto &e : v) {
      e.a = rnd<uint8>(r);
      e.b = rnd<uint32>(r);
      b += ord(e.a, sw) + ord(e.b, sw);
    }
    wr.WriteContainerWCount(v);
    return {"vec<class-rw>", b, [v](BinReaderRef &rd) {
              std::vector<WithRW> d(v.size() % 4);
              rd.ReadContainer(d);
              bool ok = d.size() == v.size();
              for (size_t i = 0; ok && i < d.size(); i++)
                ok = d[i].a == v[i].a && d[i].b == v[i].b;
              return ok;
            }};
  }
  case 31: { // class with SwapEndian, alone and in a container
    std::vector<WithSwap> v(1 + r.len(6, 3000));
    std::string b = cnt<uint32>(v.size(), sw);
    for (auto &e : v) {
      e.a = rnd<uint32>(r);
      e.b = rnd<uint16>(r);
      e.c = rnd<uint8>(r);
      e.d = rnd<uint8>(r);
      b += ord(e.a, sw) + ord(e.b, sw) + ord(e.c, sw) + ord(e.d, sw);
    }
    wr.WriteContainerWCount(v);
    wr.Write(v[0]);
    b += ord(v[0].a, sw) + ord(v[0].b, sw) + ord(v[0].c, sw) + ord(v[0].d, sw);
    return {"class-swap", b, [v](BinReaderRef &rd) {
              std::vector<WithSwap> d(v.size() % 5);
              rd.ReadContainer(d);
              bool ok = d.size() == v.size() && !memcmp(d.data(), v.data(), v.size() * sizeof(v[0]));
              WithSwap one;
              rd.Read(one);
              return ok && !memcmp(&one, &v[0], sizeof one);
            }};
  }
  case 32: { // directional SwapEndian(bool)
    WithSwapDir v;
    v.a = rnd<uint16>(r);
    v.b = rnd<uint16>(r);
    wr.Write(v);
    std::vector<WithSwapDir> vv(2, v);
    wr.WriteContainer(vv);
    std::string b = ord(v.a, sw) + ord(uint16(sw ? v.b + v.a : v.b), sw);
    return {"class-swap-dir", b + b + b, [v](BinReaderRef &rd) {
              WithSwapDir d;
              rd.Read(d);
              std::vector<WithSwapDir> dd(v.a % 4);
              rd.ReadContainer(dd, 2);
              return !memcmp(&d, &v, sizeof d) && !memcmp(&dd[0], &v, sizeof d) &&
                     !memcmp(&dd[1], &v, sizeof d);
            }};
  }
  default: { // vectors
    Vector v(rndf(r), rndf(r), rndf(r));
    wr.Write(v);
    UCVector4 u;
    for (auto &e : u._arr)
      e = rnd<uint8>(r);
    SVector2 s2(rnd<int16>(r), rnd<int16>(r));
    wr.Write(s2);
    return {"vectors", ord(v.X, sw) + ord(v.Y, sw) + ord(v.Z, sw) + ord(s2.X, sw) + ord(s2.Y, sw),
            [v, s2](BinReaderRef &rd) {
              Vector d;
              SVector2 t;
              rd.Read(d);
              rd.Read(t);
              return !memcmp(&d, &v, sizeof d) && !memcmp(&t, &s2, sizeof t);
            }};
  }
  }
}

static void scenario(Case &c, BinWritterRef &wr, std::function<std::string()> bytesOf,
                     std::function<BinReaderRef *()> open) {
  auto &r = c.rng;
  size_t n = 1 + r.below(12);
  std::vector<Op> ops;
  std::vector<bool> sws;
  std::string want, names;
  for (size_t i = 0; i < n; i++) {
    bool sw = r.chance(1, 2);
    wr.SwapEndian(sw);
    CHECK(wr.SwappedEndian() == sw, "swap-flag", "writer");
    ops.push_back(makeOp(r, wr, sw));
    sws.push_back(sw);
    want += ops.back().bytes;
    names += ops.back().name + (sw ? "(swapped) " : " ");
    note(names);
  }
  std::string got = bytesOf();
  size_t diff = 0;
  while (diff < got.size() && diff < want.size() && got[diff] == want[diff])
    diff++;
  CHECKR(got == want, "bytes", "%s: sizes %zu/%zu differ at %zu", names.c_str(), got.size(),
         want.size(), diff);
  BinReaderRef *rd = open();
  size_t pos = 0;
  for (size_t i = 0; i < n; i++) {
    rd->SwapEndian(sws[i]);
    bool ok = ops[i].back(*rd);
    pos += ops[i].bytes.size();
    CHECKR(ok, "read-back", "%s item %zu", names.c_str(), i);
    CHECKR(rd->Tell() == pos, "read-position", "%s item %zu at %zu want %zu", names.c_str(), i,
           rd->Tell(), pos);
    event(sws[i] ? "items-swapped" : "items-native");
  }
  CHECK(rd->GetSize() == want.size(), "size", "%zu want %zu", rd->GetSize(), want.size());
  distinct(hashStr(names) ^ hashStr(want));
  event("long-streams", want.size() > 0x10000);
  sample(names + " -> " + hex(want, 24));
}

MON_SECTION(memory, 3000, 100000) {
  std::stringstream ss;
  BinWritterRef wr(ss);
  std::unique_ptr<BinReaderRef> rd;
  scenario(c, wr, [&] { return ss.str(); },
           [&] {
             rd.reset(new BinReaderRef(ss));
             return rd.get();
           });
}
MON_SECTION(files, 200, 4000) {
  std::string path = S().scratch + fmt("/f%llu", (unsigned long long)c.idx);
  std::unique_ptr<BinWritter> wr(c.idx & 1 ? new BinWritter(path) : new BinWritter(path.c_str()));
  std::unique_ptr<BinReader> rd;
  CHECK(wr->IsValid(), "writer-valid", "fresh writer not valid");
  scenario(c, *wr,
           [&] {
             wr.reset();
             return readFile(path);
           },
           [&]() -> BinReaderRef * {
             if (c.idx & 2)
               rd.reset(new BinReader(path));
             else {
               rd.reset(new BinReader);
               c.idx & 4 ? rd->Open(path) : rd->Open(path.c_str());
             }
             return rd.get();
           });
  unlink(path.c_str());
  event("files");
}
// Readers and writers are used for one file after another.
MON_SECTION(reopen, 400, 8000) {
  Rng &r = c.rng;
  const int n = 2 + r.below(4);
  std::vector<std::string> path, want;
  for (int k = 0; k < n; k++) {
    path.push_back(S().scratch + fmt("/re%llu_%d", (unsigned long long)c.idx, k));
    want.push_back(r.bytes(r.len(200, 40000)));
  }
  const std::string none = S().scratch + "/no/file";
  {
    BinWritter wr;
    for (int k = 0; k < n; k++) {
      try {
        if (r.chance(1, 4))
          wr.Open(none);
      } catch (const es::FileInvalidAccessError &) {
        event("reopen-failed");
      }
      r.chance(1, 2) ? wr.Open(path[k]) : wr.Open(path[k].c_str());
      CHECK(wr.IsValid() && wr.Tell() == 0, "reopen-writer", "writer for file %d is not at its start", k);
      wr.WriteBuffer(want[k].data(), want[k].size());
    }
  }
  BinReader rd(path[0]);
  for (int k = 0; k < 2 * n; k++) {
    const int f = int(r.below(n));
    try {
      if (r.chance(1, 4))
        rd.Open(none);
    } catch (const es::FileNotFoundError &) {
      event("reopen-failed");
    }
    r.chance(1, 2) ? rd.Open(path[f]) : rd.Open(path[f].c_str());
    CHECK(rd.IsValid() && rd.Tell() == 0 && !rd.IsEOF(), "reopen-reader", "reader of file %d is not at its start", f);
    CHECK(rd.GetSize() == want[f].size(), "reopen-size", "file %d has %zu bytes, not %zu", f, rd.GetSize(), want[f].size());
    std::string got(want[f].size(), 0);
    if (!got.empty())
      rd.ReadBuffer(&got[0], got.size());
    CHECK(got == want[f], "reopen-bytes", "file %d reads %s", f, hex(got).c_str());
    if (r.chance(1, 3)) { // past the end
      char one;
      rd.ReadBuffer(&one, 1);
    }
    event("reopened");
  }
  for (auto &p : path)
    unlink(p.c_str());
  distinct(hashBytes(want[0].data(), want[0].size()));
}
// Opening what is not there reports it, naming the file; nothing is created.
MON_SECTION(open_errors, 40, 400) {
  std::string path = S().scratch + "/none" + c.rng.text(1 + c.rng.below(12));
  std::string msg;
  int kind = 0;
  try {
    if (c.idx & 1) {
      BinReader r;
      r.Open(path);
    } else
      BinReader r(path);
  } catch (const es::FileNotFoundError &e) {
    kind = 1;
    msg = e.what();
  }
  struct stat st;
  CHECK(kind == 1 && msg.find(path) != std::string::npos, "reader-open-error", "kind %d '%s'", kind,
        msg.c_str());
  CHECK(stat(path.c_str(), &st) != 0, "reader-created-file", "%s", path.c_str());
  kind = 0;
  std::string bad = path + "/deep/file";
  try {
    if (c.idx & 1) {
      BinWritter w;
      w.Open(bad.c_str());
    } else
      BinWritter w(bad);
  } catch (const es::FileInvalidAccessError &e) {
    kind = 2;
    msg = e.what();
  }
  CHECK(kind == 2 && msg.find(bad) != std::string::npos, "writer-open-error", "kind %d '%s'", kind,
        msg.c_str());
  event("open-errors", 2);
  distinct(path);
}
// A reader or writer that was moved keeps working on the file it owned.
MON_SECTION(moved, 40, 400) {
  std::string path = S().scratch + fmt("/m%llu", (unsigned long long)c.idx);
  std::string d = c.rng.bytes(20 + c.rng.below(100));
  size_t cut = c.rng.below(d.size());
  {
    std::unique_ptr<BinWritter> a(new BinWritter(path));
    a->WriteBuffer(d.data(), cut);
    a->Push();
    const size_t skip = 1 + c.rng.below(9);
    const bool swapped = c.rng.chance(1, 2);
    a->SwapEndian(swapped);
    if (cut >= skip)
      a->SetRelativeOrigin(skip, false);
    BinWritter b(std::move(*a));
    a.reset();
    b.WriteBuffer(d.data() + cut, d.size() - cut);
    // what was set goes along
    const size_t base = cut >= skip ? skip : 0;
    CHECK(b.Tell() == d.size() - base, "moved-writer-origin", "at %zu, want %zu", b.Tell(), d.size() - base);
    const uint32_t v = c.rng.u32();
    std::string e(4, 0);
    b.Write(v);
    for (int k = 0; k < 4; k++)
      e[k] = char(v >> 8 * (swapped ? 3 - k : k));
    d += e;
    b.Pop();
    CHECK(b.Tell() == cut - base, "moved-writer-pushed", "at %zu, want %zu", b.Tell(), cut - base);
  }
  CHECK(readFile(path) == d, "moved-writer", "wrote %s file %s", hex(d).c_str(),
        hex(readFile(path)).c_str());
  writeFile(path, d);
  {
    std::unique_ptr<BinReader> a(new BinReader(path));
    std::string x(d.size(), 0);
    a->ReadBuffer(&x[0], cut);
    BinReader b(std::move(*a));
    a.reset();
    CHECK(b.Tell() == cut, "moved-reader-position", "%zu want %zu", b.Tell(), cut);
    b.ReadBuffer(&x[cut], d.size() - cut);
    CHECK(x == d, "moved-reader", "read %s want %s", hex(x).c_str(), hex(d).c_str());
    // what was set goes along
    const size_t at = c.rng.below(d.size() - 4), org = c.rng.below(at + 1);
    const bool swapped = c.rng.chance(1, 2);
    b.SetRelativeOrigin(org);
    b.Seek(at - org);
    b.Push();
    b.SwapEndian(swapped);
    std::unique_ptr<BinReader> m(new BinReader(std::move(b)));
    BinReader f(std::move(*m));
    m.reset();
    CHECK(f.Tell() == at - org, "moved-reader-origin", "at %zu, want %zu", f.Tell(), at - org);
    f.Seek(0);
    f.Pop();
    uint32_t v = 0, want = 0;
    f.Read(v);
    for (int k = 0; k < 4; k++)
      want |= uint32_t(uint8_t(d[at + k])) << 8 * (swapped ? 3 - k : k);
    CHECK(v == want, "moved-reader-settings", "read %08x, want %08x", v, want);
    event("moved-settings");
  }
  unlink(path.c_str());
  event("moves");
  distinct(d);
}
// ReadString without terminator stops at the end with everything there was.
MON_SECTION(unterminated, 200, 4000) {
  std::string s = c.rng.text(c.rng.len(50, 90000)), pre = "seed";
  std::stringstream ss(s);
  BinReaderRef rd(ss);
  std::string d = pre;
  rd.ReadString(d);
  CHECK(d == pre + s, "unterminated", "got '%s' want '%s'", d.c_str(), (pre + s).c_str());
  CHECK(rd.IsEOF(), "unterminated-eof", "no eof");
  event("unterminated-strings");
  distinct(s);
}
MON_MAIN
