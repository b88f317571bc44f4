// C37: small helpers - codes, paddings, fractions, trimming, member loops, wave chunks.
#include "datas/endian.hpp"
#include "datas/macroLoop.hpp"
#include "datas/master_printer.hpp"
#include "datas/reflector.hpp"
#include "datas/string_view.hpp"
#include "datas/supercore.hpp"
#include "formats/FWSE.hpp"
#include "formats/MSF.hpp"
#include "formats/VAG.hpp"
#include "formats/WAVE.hpp"
#include "formats/XVAG.hpp"
#include "mon.hpp"
#include <cmath>
#include <deque>
#include <list>
#include <memory>
#include <set>
using namespace mon;

#include "c37_classes.inc"

MON_SECTION(codes, 2000, 40000) {
  Rng &r = c.rng;
  for (int k = 0; k < 200; k++) {
    char code[5] = {char(r.u32()), char(r.u32()), char(r.u32()), char(r.u32()), 0};
    if (r.chance(1, 3))
      for (int i = 0; i < 4; i++)
        code[i] = char(32 + r.below(95));
    uint32 want = 0;
    for (int i = 3; i >= 0; i--)
      want = want * 256 + uint8(code[i]);
    note(hex(std::string(code, 4)));
    uint32 got = CompileFourCC(code);
    CHECK(got == want, "fourcc", "code %s gives %x want %x", hex(std::string(code, 4)).c_str(), got, want);
    char longer[9];
    memcpy(longer, code, 4);
    for (int i = 4; i < 9; i++)
      longer[i] = char(r.u32());
    CHECK(CompileFourCC(longer) == want, "fourcc-long", "code %s", hex(std::string(longer, 9)).c_str());
    distinct(std::string(code, 4));
    event("codes");
    if (uint8(code[0]) > 127)
      event("high-codes");
  }
  for (int d = 0; d < 16; d++) {
    CHECK(atohLUT[uint8("0123456789abcdef"[d])] == d && atohLUT[uint8("0123456789ABCDEF"[d])] == d, "hex-digit", "%d", d);
  }
}

MON_SECTION(paddings, 1000, 20000) {
  Rng &r = c.rng;
  for (int k = 0; k < 400; k++) {
    size_t al = size_t(1) << r.below(40), v = r.edgy(62);
    size_t p = GetPadding(v, al);
    CHECK(p < al && (v + p) % al == 0, "padding", "%zu to %zu gives %zu", v, al, p);
    event("paddings");
    // powers of two, of all types
    uint64_t u = r.chance(1, 2) ? uint64_t(1) << r.below(64) : r.edgy(64);
    auto one = [&](auto t) {
      using T = decltype(t);
      T x = T(u);
      if (x <= 0)
        return;
      bool want = __builtin_popcountll(uint64_t(x)) == 1;
      CHECK(IsPow2(x) == want, "pow2", "%llu of %zu bytes", (unsigned long long)x, sizeof(T));
      event(want ? "powers" : "not-powers");
    };
    one(uint8()), one(uint16()), one(uint32()), one(uint64()), one(int32()), one(int64()), one(int16());
  }
  for (size_t n = 1; n < 64; n++) {
    long double want = 1.0L / (powl(2, (long double)n) - 1);
    float f = GetFraction(n);
    CHECK(fabsl(f - want) <= want * 1.2e-7L, "fraction", "%zu bits: %.9g want %.9Lg", n, double(f), want);
    event("fractions");
  }
  static_assert(std::is_same<es::TypeFromSize<1>::type, uint8>::value && std::is_same<es::TypeFromSize<2>::type, uint16>::value &&
                    std::is_same<es::TypeFromSize<4>::type, uint32>::value && std::is_same<es::TypeFromSize<8>::type, uint64>::value,
                "types");
}

MON_SECTION(trimming, 2000, 40000) {
  Rng &r = c.rng;
  for (int k = 0; k < 60; k++) {
    std::string s = r.chance(1, 10) ? r.text(r.len(12, 3000), " \t") : r.text(r.len(14, 3000), " \t\n\rab\v");
    bool nl = r.chance(1, 2);
    auto sp = [&](char ch) { return ch == ' ' || ch == '\t' || (nl && ch == '\n'); };
    auto plain = [&](char ch) { return ch == ' ' || ch == '\t'; };
    Exact ex(s);
    es::string_view v((const char *)ex.p, s.size());
    note(esc(s));
    size_t b = 0, e = s.size();
    while (b < e && sp(s[b]))
      b++;
    CHECK(es::SkipStartWhitespace(v, nl) == es::string_view(s).substr(b), "skip-start", "%s %d", esc(s).c_str(), nl);
    while (e > 0 && sp(s[e - 1]))
      e--;
    CHECK(es::SkipEndWhitespace(v, nl) == es::string_view(s).substr(0, e), "skip-end", "%s %d", esc(s).c_str(), nl);
    b = 0, e = s.size();
    while (b < e && plain(s[b]))
      b++;
    while (e > b && plain(s[e - 1]))
      e--;
    CHECK(es::TrimWhitespace(v) == es::string_view(s).substr(b, e - b), "trim", "%s", esc(s).c_str());
    distinct(s);
    event(b || e < s.size() ? "trimmed" : "untrimmed");
    if (s.empty() || b == e)
      event("blank");
  }
  // ends of containers, early disposal
  std::vector<int> vec(r.below(5), 1);
  std::list<int> lst(r.below(5), 1);
  std::set<int> st;
  int arr[3] = {};
  for (auto n = r.below(5); n--;)
    st.insert(int(n));
  auto walk = [&](auto &cont) {
    size_t n = 0;
    for (auto it = std::begin(cont); !es::IsEnd(cont, it); ++it)
      n++;
    return n;
  };
  CHECK(walk(vec) == vec.size() && walk(lst) == lst.size() && walk(st) == st.size() && walk(arr) == 3, "is-end", "%zu %zu %zu",
        vec.size(), lst.size(), st.size());
  auto sp = std::make_shared<int>(4);
  auto other = sp;
  es::Dispose(sp);
  CHECK(!sp && other.use_count() == 1, "dispose", "%ld", other.use_count());
  std::vector<int> gone(100);
  es::Dispose(gone);
  CHECK(gone.empty() && gone.capacity() == 0, "dispose-vector", "%zu", gone.capacity());
  event("containers");
}

// Every length of member loops.
struct LoopItem {
  const char *cls;
  int id;
  const char *name;
};
struct Loop {
  size_t n, count, numNames, numItems;
  const char *const *names;
  const LoopItem *items;
};
#define COLLECT(x) #x,
#define COLLECTID(cls, id, x) {#cls, id, #x},
#define LOOP(N, ...)                                                           \
  static const char *const names##N[] = {StaticFor(COLLECT, __VA_ARGS__)};     \
  static const LoopItem items##N[] = {StaticForArgID(COLLECTID, K, __VA_ARGS__)}; \
  static const size_t count##N = VA_NARGS(__VA_ARGS__);
#include "c37_loops.inc"
#undef LOOP
#define LOOP(N, ...) {N, count##N, sizeof(names##N) / sizeof(names##N[0]), sizeof(items##N) / sizeof(items##N[0]), names##N, items##N},
static const Loop loops[] = {
#include "c37_loops.inc"
};

template <class E> static void enumOf(size_t n) {
  auto e = GetReflectedEnum<E>();
  CHECK(e.size() == n, "enum-size", "%zu of %zu enumerators", e.size(), n);
  for (size_t i = 0; i < n; i++)
    CHECK(e[i] == "e" + std::to_string(i) && e.values[i] == i, "enum-name", "enumerator %zu of %zu is '%s'", i, n,
          e[i].to_string().c_str());
  CHECK(size_t(E(n - 1)) == n - 1, "enum", "%zu", n);
  event("enums");
}
template <class C> static void classOf(Rng &r, size_t n) {
  C o;
  int16 *m = reinterpret_cast<int16 *>(reinterpret_cast<char *>(&o) + sizeof(C) - 2 * n);
  (void)m;
  CHECK(o.GetNumReflectedValues() == n, "class-size", "%zu of %zu members", o.GetNumReflectedValues(), n);
  std::vector<int16> want;
  for (size_t i = 0; i < n; i++) {
    want.push_back(int16(r.u32()));
    CHECK(o.SetReflectedValue(es::string_view("m" + std::to_string(i)), es::string_view(std::to_string(want[i]))) ==
              Reflector::ErrorType::None,
          "set", "member %zu of %zu", i, n);
  }
  for (size_t i = 0; i < n; i++) {
    auto kv = o.GetReflectedPair(i);
    CHECK(kv.name == "m" + std::to_string(i) && kv.value == std::to_string(want[i]), "pair", "member %zu of %zu: %s = %s want %d", i, n,
          kv.name.to_string().c_str(), kv.value.c_str(), want[i]);
  }
  event("classes");
}

MON_SECTION(loops, 4, 8) {
  for (auto &l : loops) {
    note(fmt("%zu arguments", l.n));
    CHECK(l.count == l.n, "nargs", "%zu counted as %zu", l.n, l.count);
    CHECKR(l.numNames == l.n && l.numItems == l.n, "loop-length", "%zu: %zu %zu", l.n, l.numNames, l.numItems);
    for (size_t i = 0; i < l.n; i++) {
      std::string w = "m" + std::to_string(i);
      auto &it = l.items[i];
      CHECK(l.names[i] == w && it.name == w && it.id == int(i) && it.cls == std::string("K"), "loop-item", "%zu of %zu is %s", i, l.n,
            l.names[i]);
    }
    event("loops");
    distinct(fmt("loop%zu", l.n));
  }
#define X(n) enumOf<En##n>(n), classOf<Cl##n>(c.rng, n);
  SIZES(X)
}

// Wave files.
static uint32 rd32(const std::string &s, size_t o) { return uint8(s[o]) | uint8(s[o + 1]) << 8 | uint8(s[o + 2]) << 16 | uint32(uint8(s[o + 3])) << 24; }
static uint32 rd16(const std::string &s, size_t o) { return uint8(s[o]) | uint8(s[o + 1]) << 8; }
template <class T> static std::string img(const T &v) { return std::string((const char *)&v, sizeof v); }

MON_SECTION(wave, 2000, 40000) {
  Rng &r = c.rng;
  std::string file;
  struct Chunk {
    size_t at;
    uint32 size;
    std::string id;
    bool known;
  };
  std::vector<Chunk> chunks;
  auto finish = [&](size_t at, const char *id, bool known) {
    uint32 sz = uint32(file.size() - at - 8);
    memcpy(&file[at + 4], &sz, 4);
    chunks.push_back({at, sz, id, known});
    if (file.size() & 1)
      file.push_back(0);
  };
  file += img(RIFFHeader(0));
  { // fmt
    static const struct {
      WAVE_FORMAT f;
      int code, bits;
    } kinds[] = {{WAVE_FORMAT::PCM, 1, 16},    {WAVE_FORMAT::MS_ADPCM, 2, 4},    {WAVE_FORMAT::ALAW, 6, 8}, {WAVE_FORMAT::MULAW, 7, 8},
                 {WAVE_FORMAT::IMA_ADPCM, 17, 4}, {WAVE_FORMAT::GSM610, 49, 0}, {WAVE_FORMAT::MPEG, 80, 0}};
    auto &k = kinds[r.below(7)];
    WAVE_fmt f(k.f);
    CHECK(f.bitsPerSample == k.bits && f.channels == 1, "bits", "format %d has %d bits", k.code, f.bitsPerSample);
    f.channels = uint16(r.chance(2, 3) ? 1 + r.below(8) : 1 + r.below(16383));
    f.sampleRate = uint32(r.pick(std::vector<int>{8000, 11025, 22050, 44100, 48000, 96000, 192000, int(r.below(1000000))}));
    if (k.bits == 16)
      f.bitsPerSample = uint16(8 * (1 + r.below(4)));
    uint32 bytes = f.bitsPerSample / 8u;
    // as fast as the rate of bytes can be told
    if (r.chance(1, 5))
      f.sampleRate = uint32((0xffffffffull - r.below(9)) / (f.channels * (bytes ? bytes : 1)));
    f.CalcData();
    if (f.bitsPerSample % 8 == 0) {
      CHECK(f.interleave == f.channels * bytes, "block", "%d channels of %d bits: %d", f.channels, f.bitsPerSample, f.interleave);
      CHECK(f.sampleCount == f.channels * bytes * f.sampleRate, "byte-rate", "%d channels of %d bits at %u: %u", f.channels,
            f.bitsPerSample, f.sampleRate, f.sampleCount);
      event("calculated");
    }
    std::string i = img(f);
    CHECK(i.size() == 24 && i.substr(0, 4) == "fmt " && rd32(i, 4) == 16 && rd16(i, 8) == uint32(k.code) && rd16(i, 10) == f.channels &&
              rd32(i, 12) == f.sampleRate && rd32(i, 16) == f.sampleCount && rd16(i, 20) == f.interleave &&
              rd16(i, 22) == f.bitsPerSample,
          "fmt", "%s", hex(i).c_str());
    size_t at = file.size();
    file += i;
    if (r.chance(1, 4))
      file += r.bytes(r.below(7));
    finish(at, "fmt ", true);
  }
  std::string data;
  size_t dataAt = 0;
  for (size_t n = r.below(6); n--;) {
    size_t at = file.size();
    switch (r.below(4)) {
    case 0: {
      file += img(WAVEGenericHeader(CompileFourCC("LIST"))) + r.bytes(r.len(20, 70000));
      finish(at, "LIST", false);
      break;
    }
    case 1:
      file += img(WAVEGenericHeader(WAVE_fact::ID)) + r.bytes(4);
      finish(at, "fact", true);
      break;
    case 2: {
      size_t loops = r.below(3);
      std::string s(sizeof(WAVE_smpl) + loops * sizeof(WAVE_smpl::SampleLoop), 0);
      auto *w = reinterpret_cast<WAVE_smpl *>(&s[0]);
      w->id = WAVE_smpl::ID;
      w->numSampleLoops = uint32(loops);
      for (size_t i = 0; i < loops; i++) {
        auto &l = w->GetSampleLoops()[i];
        l.id = uint32(i), l.start = 5, l.end = uint32(1000 + i), l.playCount = 9;
        l.type = WAVE_smpl::SampleLoop::TYPE_LOOP_BACKWARD;
      }
      CHECK(s.size() == 44 + 24 * loops && rd32(s, 36) == loops, "smpl", "%s", hex(s).c_str());
      for (size_t i = 0; i < loops; i++)
        CHECK(rd32(s, 44 + 24 * i) == i && rd32(s, 48 + 24 * i) == 2 && rd32(s, 52 + 24 * i) == 5 && rd32(s, 56 + 24 * i) == 1000 + i &&
                  rd32(s, 64 + 24 * i) == 9,
              "loop", "%s", hex(s).c_str());
      file += s;
      finish(at, "smpl", true);
      break;
    }
    default:
      if (dataAt)
        continue;
      data = r.bytes(r.len(60, 70000));
      file += img(WAVE_data(uint32(data.size()))) + data;
      dataAt = at;
      CHECK(rd32(file, at + 4) == data.size() && file.substr(at, 4) == "data", "data-header", "%s", hex(file.substr(at, 8)).c_str());
      finish(at, "data", true);
    }
  }
  { // the header knows the size of the file
    RIFFHeader h(uint32(file.size()));
    std::string i = img(h);
    CHECK(i.size() == 12 && i.substr(0, 4) == "RIFF" && i.substr(8) == "WAVE" && rd32(i, 4) == file.size() - 8, "riff", "%s",
          hex(i).c_str());
    file.replace(0, 12, i);
  }
  note(hex(file));
  distinct(file);
  Exact ex(file);
  char *base = ex.p;
  auto *cur = reinterpret_cast<WAVEGenericHeader *>(base + 12);
  for (auto &k : chunks) {
    CHECKR((char *)cur == base + k.at, "walk", "chunk %s at %zd want %zu in %s", k.id.c_str(), (char *)cur - base, k.at, hex(file).c_str());
    CHECK(cur->chunkSize == k.size, "chunk-size", "%u want %u", cur->chunkSize, k.size);
    CHECK(IsValidWaveChunk(*cur) == k.known, "valid", "%s", k.id.c_str());
    if (k.id == "data") {
      auto *d = static_cast<WAVE_data *>(cur);
      CHECK(d->GetData() == base + k.at + 8 && std::string(d->GetData(), d->chunkSize) == data, "data", "%s", hex(file).c_str());
      event("data-chunks");
    }
    event(k.size & 1 ? "odd-chunks" : "even-chunks");
    cur = cur->Next();
  }
  CHECK((char *)cur == base + file.size(), "walk-end", "%zd want %zu", (char *)cur - base, file.size());
  CHECK((char *)reinterpret_cast<WAVEGenericHeader *>(base)->Next() == base + file.size(), "riff-next", "%zu", file.size());
  // unknown chunks
  for (int i = 0; i < 50; i++) {
    uint32 id = r.u32();
    static const uint32 ids[] = {0x20746d66, 0x61746164, 0x74636166, 0x6c706d73};
    if (r.chance(1, 2))
      id = ids[r.below(4)] ^ (r.chance(1, 2) ? 1u << r.below(32) : 0);
    bool want = std::count(ids, ids + 4, id);
    CHECK(IsValidWaveChunk(WAVEGenericHeader(id, r.u32())) == want, "valid-id", "%x", id);
    event(want ? "known-ids" : "unknown-ids");
  }
  // headers of other formats
  CHECK(FWSE::ID == 0x45535746 && VAGID == 0x70474156 && XVAGID == 0x47415658 && XVAGFMAT == 0x74616d66, "ids", "%x", FWSE::ID);
  CHECK(sizeof(FWSE) == 1024 && offsetof(FWSE, sampleDepth) == 28 && sizeof(MSF) == 64 && offsetof(MSF, loopDuration) == 28 &&
            sizeof(VAG) == 64 && offsetof(VAG, sampleRate) == 16 && sizeof(XVAGHeader) == 32 && sizeof(XVAGfmat) == 36,
        "layouts", "%zu", sizeof(FWSE));
}
MON_MAIN
