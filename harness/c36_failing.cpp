// C36: reading from (and writing to) streams that fail at any point ends, gives
// what lies before the failure, and nothing undefined.
#include "datas/base_128.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/vectors.hpp"
#include "mon.hpp"
#include <functional>
#include <memory>
#include <sstream>
using namespace mon;

struct IoError {};
// Memory stream whose device stops working at a byte.
struct FailBuf : std::streambuf {
  const std::string &d;
  size_t pos = 0, stop;
  bool hard; // an error instead of an end
  bool seekable;
  FailBuf(const std::string &d, size_t stop, bool hard, bool seekable) : d(d), stop(stop), hard(hard), seekable(seekable) {}
  void fail() {
    event("device-failures");
    if (hard)
      throw IoError();
  }
  int_type underflow() override {
    if (pos >= stop) {
      fail();
      return traits_type::eof();
    }
    return uint8_t(d[pos]);
  }
  int_type uflow() override {
    int_type r = underflow();
    if (r != traits_type::eof())
      pos++;
    return r;
  }
  std::streamsize xsgetn(char *o, std::streamsize n) override {
    size_t k = std::min<size_t>(n, stop > pos ? stop - pos : 0);
    memcpy(o, d.data() + pos, k);
    pos += k;
    if (k < size_t(n))
      fail();
    return k;
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override {
    if (!seekable)
      return pos_type(off_type(-1));
    off_type b = w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? off_type(pos) : off_type(d.size());
    if (b + o < 0 || b + o > off_type(d.size()))
      return pos_type(off_type(-1));
    pos = size_t(b + o);
    return pos_type(off_type(pos));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
struct FullBuf : std::streambuf {
  std::string got;
  size_t room;
  bool hard;
  FullBuf(size_t room, bool hard) : room(room), hard(hard) {}
  int_type overflow(int_type c) override {
    if (got.size() >= room) {
      event("full-devices");
      if (hard)
        throw IoError();
      return traits_type::eof();
    }
    got.push_back(char(c));
    return c;
  }
};

// Container that notices when it is filled without end.
struct Endless {};
template <class C> struct Bounded {
  using value_type = C;
  std::basic_string<C> s;
  void push_back(C c) {
    if (s.size() > 5000)
      throw Endless();
    s.push_back(c);
  }
  void append(size_t n, C c) {
    while (n--)
      push_back(c);
  }
  void reserve(size_t) {}
  size_t size() const { return s.size(); }
  bool empty() const { return s.empty(); }
  C &back() { return s.back(); }
  C &operator[](size_t i) { return s[i]; }
  void pop_back() { s.pop_back(); }
  void clear() { s.clear(); }
  auto begin() { return s.begin(); }
  auto end() { return s.end(); }
  const C *data() const { return s.data(); }
};

template <class T> struct Small : std::allocator<T> { // no item here is that large
  template <class U> struct rebind { using other = Small<U>; };
  Small() = default;
  template <class U> Small(const Small<U> &) {}
  T *allocate(size_t n) {
    if (n > 100000)
      throw std::bad_alloc();
    return std::allocator<T>::allocate(n);
  }
};
template <class T> using Vec = std::vector<T, Small<T>>;

struct Inner {
  uint8 a = 0;
  std::string s;
  uint16 b = 0;
  void Read(BinReaderRef rd) {
    rd.Read(a);
    Bounded<char> x;
    rd.ReadString(x);
    s = x.s;
    rd.Read(b);
  }
  void Write(BinWritterRef wr) const {
    wr.Write(a);
    wr.WriteT(s);
    wr.Write(b);
  }
};

static void __attribute__((noinline)) poison(int v) {
  volatile char x[6000];
  for (size_t i = 0; i < sizeof x; i++)
    x[i] = char(v);
}

struct Result {
  std::string bytes;  // what a user sees of an item, in canonical form
  size_t count = 0;
};
struct Item {
  size_t begin = 0, end = 0;
  const char *kind;
  std::function<Result(BinReaderRef)> read;
  Result want;
  bool emptyAfter; // gives nothing at all once the stream has failed
  bool prefix;     // gives a prefix when cut inside
  size_t unit = 1;
};

template <class T> static Result raw(const T &v) {
  Result r;
  r.bytes.assign((const char *)&v, sizeof v);
  return r;
}
template <class T> static Result cont(const T &v) {
  Result r;
  r.count = v.size();
  if (v.size())
    r.bytes.assign((const char *)&v[0], v.size() * sizeof(v[0]));
  return r;
}
static Result inner(const Inner &i) {
  Result r;
  r.bytes = std::string(1, char(i.a)) + "|" + i.s + "|" + std::to_string(i.b);
  return r;
}

template <class T> static Item scalar(Rng &r, BinWritterRef wr, const char *kind) {
  Item it;
  T v;
  uint64_t u = r.edgy(64);
  memcpy(&v, &u, sizeof v);
  it.begin = wr.Tell();
  wr.Write(v);
  it.end = wr.Tell();
  it.kind = kind;
  it.want = raw(v);
  it.read = [](BinReaderRef rd) {
    T v{};
    rd.Read(v);
    return raw(v);
  };
  it.emptyAfter = it.prefix = false;
  return it;
}
template <class C> static Item str(Rng &r, BinWritterRef wr, const char *kind) {
  Item it;
  std::basic_string<C> s;
  for (size_t n = r.len(20, 3000); n--;)
    s.push_back(C(1 + r.below(sizeof(C) > 1 ? 60000 : 250)));
  it.begin = wr.Tell();
  wr.WriteT(es::basic_string_view<C>(s));
  it.end = wr.Tell();
  it.kind = kind;
  it.want = cont(s);
  it.read = [](BinReaderRef rd) {
    Bounded<C> b;
    rd.ReadString(b);
    return cont(b.s);
  };
  it.emptyAfter = it.prefix = true;
  it.unit = sizeof(C);
  return it;
}
template <class N, class T> static Item vec(Rng &r, BinWritterRef wr, const char *kind) {
  Item it;
  Vec<T> s(sizeof(N) > 1 ? r.len(12, 3000) : r.below(12));
  for (auto &e : s) {
    uint64_t u = r.u64();
    memcpy(&e, &u, sizeof e);
  }
  it.begin = wr.Tell();
  wr.WriteContainerWCount<N>(s);
  it.end = wr.Tell();
  it.kind = kind;
  it.want = cont(s);
  it.read = [](BinReaderRef rd) {
    Vec<T> v(3, T(5)); // in use before
    rd.ReadContainer<N>(v);
    return cont(v);
  };
  it.emptyAfter = true;
  it.prefix = false;
  return it;
}
template <class V, class I> static Item var(Rng &r, BinWritterRef wr, const char *kind) {
  Item it;
  V v(I(r.edgy(64)));
  it.begin = wr.Tell();
  wr.Write(v);
  it.end = wr.Tell();
  it.kind = kind;
  it.want = raw(v.value);
  it.read = [](BinReaderRef rd) {
    V v(I(77));
    rd.Read(v);
    return raw(v.value);
  };
  it.emptyAfter = true;
  it.prefix = false;
  return it;
}

static std::vector<Item> make(Rng &r, BinWritterRef wr, std::vector<bool> &swaps) {
  std::vector<Item> items;
  int n = int(1 + r.below(8));
  for (int i = 0; i < n; i++) {
    bool sw = r.chance(1, 2);
    wr.SwapEndian(sw);
    swaps.push_back(sw);
    switch (r.below(13)) {
    case 0: items.push_back(scalar<uint8>(r, wr, "uint8")); break;
    case 1: items.push_back(scalar<uint16>(r, wr, "uint16")); break;
    case 2: items.push_back(scalar<uint32>(r, wr, "uint32")); break;
    case 3: items.push_back(scalar<uint64>(r, wr, "uint64")); break;
    case 4: items.push_back(str<char>(r, wr, "string")); break;
    case 5: items.push_back(str<wchar_t>(r, wr, "wide string")); break;
    case 6: items.push_back(vec<uint8, uint8>(r, wr, "bytes")); break;
    case 7: items.push_back(vec<uint16, uint32>(r, wr, "container")); break;
    case 8: items.push_back(vec<uint32, uint16>(r, wr, "container32")); break;
    case 9: items.push_back(var<bint128, int64>(r, wr, "bint128")); break;
    case 10: items.push_back(var<buint128, uint64>(r, wr, "buint128")); break;
    case 11: {
      Item it;
      Inner v;
      v.a = uint8(r.u32()), v.b = uint16(r.u32()), v.s = r.text(r.below(9), "abcd");
      it.begin = wr.Tell();
      wr.Write(v);
      it.end = wr.Tell();
      it.kind = "class";
      it.want = inner(v);
      it.read = [](BinReaderRef rd) {
        Inner v;
        rd.Read(v);
        return inner(v);
      };
      it.emptyAfter = it.prefix = false;
      items.push_back(it);
      break;
    }
    default: { // classes each reading themselves
      Item it;
      Vec<Inner> v(r.below(4));
      for (auto &e : v)
        e.a = uint8(r.u32()), e.b = uint16(r.u32()), e.s = r.text(r.below(5), "abcd");
      it.begin = wr.Tell();
      wr.WriteContainerWCount<uint16>(v);
      it.end = wr.Tell();
      it.kind = "classes";
      auto all = [](const Vec<Inner> &v) {
        Result r;
        r.count = v.size();
        for (auto &e : v)
          r.bytes += inner(e).bytes + ",";
        return r;
      };
      it.want = all(v);
      it.read = [all](BinReaderRef rd) {
        Vec<Inner> v(2); // in use before
        size_t calls = 0;
        rd.ReadContainerLambda<uint16>(v, [&](BinReaderRef r2, Inner &e) {
          calls++;
          r2.Read(e);
        });
        if (calls != v.size())
          throw Endless();
        return all(v);
      };
      it.emptyAfter = true;
      it.prefix = false;
      items.push_back(it);
    }
    }
  }
  return items;
}

MON_SECTION(reading, 3000, 60000) {
  Rng &r = c.rng;
  std::stringstream ss;
  BinWritterRef wr(ss);
  std::vector<bool> swaps;
  auto items = make(r, wr, swaps);
  std::string d = ss.str();
  distinct(d);
  // every failing point of short images, random ones of long images
  std::vector<size_t> stops;
  if (d.size() < 40)
    for (size_t i = 0; i <= d.size(); i++)
      stops.push_back(i);
  else
    for (int i = 0; i < 30; i++)
      stops.push_back(r.below(d.size() + 1));
  for (size_t stop : stops) {
    bool hard = r.chance(1, 2), seekable = r.chance(1, 2);
    // from `already` on the stream is failed before the item is read
    size_t already = r.chance(1, 4) ? r.below(items.size()) : ~size_t(0);
    int how = int(r.below(3));
    std::vector<Result> seen[2];
    for (int pass = 0; pass < 2; pass++) {
      FailBuf buf(d, stop, hard, seekable);
      std::istream is(&buf);
      BinReaderRef rd(is);
      bool failed = false;
      for (size_t i = 0; i < items.size(); i++) {
        Item &it = items[i];
        rd.SwapEndian(swaps[i]);
        if (i == already) {
          switch (how) {
          case 0: is.setstate(std::ios_base::badbit); break;
          case 1: is.setstate(std::ios_base::failbit); break;
          default: rd.Seek(d.size() + 100); break; // cannot be done
          }
          failed = true;
          event("failed-before");
        }
        std::string where = fmt("%s item %zu at %zu-%zu of %zu bytes, failing at %zu %s, %s", it.kind, i, it.begin, it.end, d.size(),
                                stop, hard ? "with error" : "with end", failed ? "failed before" : "working before");
        note(where);
        Result got;
        poison(pass ? 0x55 : 0xff);
        try {
          got = it.read(rd);
        } catch (Endless &) {
          violation("endless", fmt("does not end: %s", where.c_str()));
          return;
        } catch (std::bad_alloc &) {
          violation("undefined-count", fmt("count of a container was not read: %s", where.c_str()));
          return;
        } catch (std::length_error &) {
          violation("undefined-count", fmt("count of a container was not read: %s", where.c_str()));
          return;
        }
        event("items");
        if (!failed && it.end <= stop) {
          CHECK(got.bytes == it.want.bytes && got.count == it.want.count, "whole-item", "%s: got %s want %s", where.c_str(),
                hex(got.bytes).c_str(), hex(it.want.bytes).c_str());
          event("whole-items");
          CHECK(is.good(), "good", "%s: stream state", where.c_str());
        } else {
          if (it.emptyAfter && (failed || it.begin >= stop)) {
            bool zero = true;
            for (char ch : got.bytes)
              zero = zero && !ch;
            CHECK(!got.count && zero, "not-empty", "%s: got %zu items, %s", where.c_str(), got.count, hex(got.bytes).c_str());
            event("empty-items");
          } else if (it.prefix && !failed) {
            size_t k = (stop - it.begin) / it.unit * it.unit;
            k = std::min(k, it.want.bytes.size());
            CHECK(got.bytes.size() <= k + it.unit && got.bytes.substr(0, k) == it.want.bytes.substr(0, k), "cut-string",
                  "%s: got %s want at least %s", where.c_str(), hex(got.bytes).c_str(), hex(it.want.bytes.substr(0, k)).c_str());
            if (it.unit == 1)
              CHECK(got.bytes.size() == k, "cut-string", "%s: got %s", where.c_str(), hex(got.bytes).c_str());
            event("cut-strings");
          }
          CHECK(!is.good(), "not-failed", "%s: the stream must tell that it failed", where.c_str());
          failed = true;
        }
        seen[pass].push_back(got);
      }
    }
    for (size_t i = 0; i < items.size(); i++)
      CHECK(seen[0][i].count == seen[1][i].count && seen[0][i].bytes == seen[1][i].bytes, "undefined-value",
            "%s item %zu at %zu-%zu, failing at %zu: %s then %s", items[i].kind, i, items[i].begin, items[i].end, stop,
            hex(seen[0][i].bytes).c_str(), hex(seen[1][i].bytes).c_str());
    event(hard ? "errors" : "ends");
  }
  sample(hex(d));
}

MON_SECTION(writing, 1500, 30000) {
  Rng &r = c.rng;
  std::stringstream ss;
  BinWritterRef wr(ss);
  std::vector<bool> swaps;
  Rng same = r;
  auto items = make(r, wr, swaps);
  std::string d = ss.str();
  distinct(d);
  // A device which cannot tell positions and takes `room` bytes.
  for (int k = 0; k < 6; k++) {
    FullBuf buf(k ? r.below(d.size() + 1) : d.size(), r.chance(1, 2));
    std::ostream os(&buf);
    BinWritterRef w2(os);
    Rng again = same;
    std::vector<bool> sw2;
    note(fmt("%zu bytes to a device with room for %zu", d.size(), buf.room));
    make(again, w2, sw2);
    CHECK(buf.got == d.substr(0, buf.room), "written", "room for %zu: got %s of %s", buf.room, hex(buf.got).c_str(), hex(d).c_str());
    // The unformatted output functions only notice once they are refused.
    CHECK(os.bad() == (buf.room < d.size()), "write-failed", "room for %zu of %zu bytes, stream state %d", buf.room, d.size(),
          int(os.rdstate()));
    event(buf.room < d.size() ? "full" : "fitting");
  }
}
MON_MAIN
