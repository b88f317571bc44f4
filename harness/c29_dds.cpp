// C29: texture headers.
#include "datas/supercore.hpp"
#include "formats/DDS.hpp"
#include "mon.hpp"
#include <cstring>
#include <memory>
using namespace mon;

// bits per pixel and block compression by the documentation of the formats; 0 stands for "not claimed" (video formats)
struct Known {
  int first, last, bpp;
  bool block;
};
static const Known known[] = {
    {1, 4, 128, 0},  {5, 8, 96, 0},   {9, 14, 64, 0},  {15, 18, 64, 0}, {19, 22, 64, 0}, {23, 25, 32, 0}, {26, 26, 32, 0},
    {27, 32, 32, 0}, {33, 38, 32, 0}, {39, 43, 32, 0}, {44, 47, 32, 0}, {48, 52, 16, 0}, {53, 59, 16, 0}, {60, 65, 8, 0},
    {66, 66, 1, 0},  {67, 67, 32, 0}, {70, 72, 4, 1},  {73, 78, 8, 1},  {79, 81, 4, 1},  {82, 84, 8, 1},  {85, 86, 16, 0},
    {87, 93, 32, 0}, {94, 99, 8, 1},  {115, 115, 16, 0}};
static const Known *find(int dxgi) {
  for (auto &k : known)
    if (dxgi >= k.first && dxgi <= k.last)
      return &k;
  return nullptr;
}

struct Legacy {
  const char *name;
  DDS_PixelFormat pf;
  int dxgi; // 0 if there is none
  bool premultiplied, block;
  bool canonical; // what the other way gives
  bool forced;
};
using PF = DDS_PixelFormat;
static PF cc(const char *code, int bpp) {
  uint32 v;
  memcpy(&v, code, 4);
  return PF(v, bpp);
}
static PF rgb(int flags, int bpp, uint32 r, uint32 g, uint32 b, uint32 a) {
  PF f;
  f.pfFlags = PF::FlagsType{};
  for (int i = 0; i < 32; i++)
    if (flags >> i & 1)
      f.pfFlags.Set(PF::PFFlags(i), true);
  f.bpp = bpp;
  f.RBitMask = r;
  f.GBitMask = g;
  f.BBitMask = b;
  f.ABitMask = a;
  return f;
}
static const int RGB = 0x40, RGBA = 0x41, LUM = 0x20000, LUMA = 0x20001, ALPHA = 2;
static const std::vector<Legacy> &legacies() {
  static const std::vector<Legacy> all = {
      {"DXT1", cc("DXT1", 4), 71, 0, 1, 1, 0},
      {"DXT2", cc("DXT2", 8), 74, 1, 1, 1, 0},
      {"DXT3", cc("DXT3", 8), 74, 0, 1, 1, 0},
      {"DXT4", cc("DXT4", 8), 77, 1, 1, 1, 0},
      {"DXT5", cc("DXT5", 8), 77, 0, 1, 1, 0},
      {"BC4U", cc("BC4U", 4), 80, 0, 1, 1, 0},
      {"ATI1", cc("ATI1", 4), 80, 0, 1, 0, 0},
      {"BC4S", cc("BC4S", 4), 81, 0, 1, 1, 0},
      {"BC5U", cc("BC5U", 8), 83, 0, 1, 0, 0},
      {"ATI2", cc("ATI2", 8), 83, 0, 1, 1, 0},
      {"BC5S", cc("BC5S", 8), 84, 0, 1, 1, 0},
      {"RGBG", cc("RGBG", 32), 68, 0, 0, 1, 0},
      {"GRGB", cc("GRGB", 32), 69, 0, 0, 1, 0},
      {"YUY2", cc("YUY2", 32), 107, 0, 0, 1, 0},
      {"36", PF(36, 64), 11, 0, 0, 1, 0},
      {"110", PF(110, 64), 13, 0, 0, 1, 0},
      {"111", PF(111, 16), 54, 0, 0, 1, 0},
      {"112", PF(112, 32), 34, 0, 0, 1, 0},
      {"113", PF(113, 64), 10, 0, 0, 1, 0},
      {"114", PF(114, 32), 41, 0, 0, 1, 0},
      {"115", PF(115, 64), 16, 0, 0, 1, 0},
      {"116", PF(116, 128), 2, 0, 0, 1, 0},
      {"A8B8G8R8", rgb(RGBA, 32, 0xff, 0xff00, 0xff0000, 0xff000000), 28, 0, 0, 1, 0},
      {"A8R8G8B8", rgb(RGBA, 32, 0xff0000, 0xff00, 0xff, 0xff000000), 87, 0, 0, 1, 1},
      {"X8R8G8B8", rgb(RGB, 32, 0xff0000, 0xff00, 0xff, 0), 88, 0, 0, 1, 1},
      {"A1R5G5B5", rgb(RGBA, 16, 0x7c00, 0x3e0, 0x1f, 0x8000), 86, 0, 0, 1, 0},
      {"A4R4G4B4", rgb(RGBA, 16, 0xf00, 0xf0, 0xf, 0xf000), 115, 0, 0, 1, 1},
      {"R5G6B5", rgb(RGB, 16, 0xf800, 0x7e0, 0x1f, 0), 85, 0, 0, 1, 0},
      {"G16R16", rgb(RGB, 32, 0xffff, 0xffff0000, 0, 0), 35, 0, 0, 1, 0},
      {"A8L8", rgb(LUMA, 16, 0xff, 0, 0, 0xff00), 49, 0, 0, 1, 1},
      {"L16", rgb(LUM, 16, 0xffff, 0, 0, 0), 56, 0, 0, 1, 1},
      {"L8", rgb(LUM, 8, 0xff, 0, 0, 0), 61, 0, 0, 1, 1},
      {"A8", rgb(ALPHA, 8, 0, 0, 0, 0xff), 65, 0, 0, 1, 0},
  };
  return all;
}
static bool same(const PF &a, const PF &b) {
  return !memcmp(&a, &b, sizeof a);
}
static PF &pf(DDS &d) { return d; }
static const PF &pf(const DDS &d) { return d; }

static uint32 dim(Rng &r) {
  switch (r.below(6)) {
  case 0: return 1 + r.below(8);
  case 1: return 1u << r.below(15);
  case 2: return (1u << r.below(15)) + 1;
  case 3: return 1 + r.below(20000);
  case 4: return 1 + r.u32() % 0x7fffffff;
  default: return 1 + r.below(300);
  }
}

static void judgeSizes(Case &c, DDS &d, int bpp, bool block, const char *what) {
  Rng &r = c.rng;
  const uint32 count = d.mipMapCount > 15 ? 15 : d.mipMapCount ? d.mipMapCount : 1;
  std::unique_ptr<DDS::Mips> mips(new DDS::Mips);
  memset(mips.get(), 0xa5, sizeof(DDS::Mips));
  const DDS before = d;
  const uint32 total = d.ComputeBufferSize(*mips);
  CHECK(!memcmp(&before, &d, sizeof d), "changed", "%s: computing sizes changed the header", what);
  const auto want = [&](uint32 m) -> unsigned __int128 {
    unsigned __int128 w = std::max(1u, d.width >> m), h = std::max(1u, d.height >> m);
    if (block)
      w = (w + 3) / 4 * 4, h = (h + 3) / 4 * 4;
    return (w * h * bpp + 7) / 8;
  };
  unsigned __int128 sum = 0;
  for (uint32 m = 0; m < count; m++)
    sum += want(m);
  for (uint32 m = count; m < 15; m++)
    CHECK(mips->sizes[m] == 0xa5a5a5a5 && mips->offsets[m] == 0xa5a5a5a5, "untouched", "%s: mip %u of %u written", what, m, count);
  event(block ? "block-textures" : "plain-textures");
  if (d.mipMapCount > 15)
    event("too-many-mips");
  if (sum >> 32) {
    event("too-large");
    return;
  }
  sum = 0;
  for (uint32 m = 0; m < count; m++) {
    CHECK(mips->sizes[m] == uint32(want(m)), "size", "%s %ux%u, %d bpp: mip %u has %u bytes, not %u", what, d.width, d.height, bpp, m,
          mips->sizes[m], uint32(want(m)));
    CHECK(mips->offsets[m] == uint32(sum), "offset", "%s %ux%u, %d bpp: mip %u at %u, not %u", what, d.width, d.height, bpp, m,
          mips->offsets[m], uint32(sum));
    sum += want(m);
  }
  CHECK(total == uint32(sum), "total", "%s %ux%u, %d bpp, %u mips: %u bytes, not %u", what, d.width, d.height, bpp, count, total, uint32(sum));
  event("sizes", count);
  (void)r;
}
static DDS sized(Rng &r) {
  DDS d;
  d.width = dim(r);
  d.height = dim(r);
  if (r.chance(1, 3))
    d.height = d.width;
  const int mips = r.below(6) == 0 ? r.u32() >> 1 : r.below(17);
  d.NumMipmaps(mips);
  return d;
}

MON_SECTION(sizes, 400, 40000) {
  Rng &r = c.rng;
  for (int fmt = 0; fmt < 140; fmt++) {
    DDS d = sized(r);
    d = DDSFormat_DX10;
    const uint32 f = fmt < 130 ? fmt : r.u32();
    memcpy(&d.dxgiFormat, &f, 4);
    d.ComputeBPP();
    const Known *k = f < 130 ? find(f) : nullptr;
    if (k) {
      CHECK(int(d.bpp) == k->bpp, "bpp", "format %u has %u bits per pixel, not %d", f, d.bpp, k->bpp);
      CHECK(IsBC(d.dxgiFormat) == k->block, "block", "format %u: block compression %d", f, IsBC(d.dxgiFormat));
      judgeSizes(c, d, k->bpp, k->block, "dxgi");
    } else {
      if (!f || f > 115) // 116 and more are video formats and unknown values
        CHECK(f && f < 130 ? true : !d.bpp, "unknown bpp", "unknown format %u has %u bits per pixel", f, d.bpp);
      DDS::Mips m;
      const uint32 total = d.ComputeBufferSize(m);
      CHECK(d.bpp || !total, "unknown size", "format %u of unknown size takes %u bytes", f, total);
      event("unknown-formats");
    }
    distinct(uint64_t(d.width) << 32 ^ uint64_t(d.height) << 10 ^ f);
  }
  for (auto &l : legacies()) {
    DDS d = sized(r);
    d = l.pf;
    if (d.fourCC && r.chance(1, 2)) { // readers often find no number there
      d.bpp = 0;
      d.ComputeBPP();
      CHECK(d.bpp == l.pf.bpp, "legacy bpp", "%s has %u bits per pixel", l.name, d.bpp);
      event("computed-bpp");
    } else {
      d.ComputeBPP();
      CHECK(d.bpp == l.pf.bpp, "bpp kept", "%s: given number of bits replaced with %u", l.name, d.bpp);
    }
    judgeSizes(c, d, l.pf.bpp, l.block, l.name);
    // the same texture in the other kind of header has the same sizes
    DDS e = d;
    if (!e.FromLegacy() && l.dxgi != 107) {
      e.ComputeBPP();
      judgeSizes(c, e, l.pf.bpp, l.block, l.name);
    }
  }
}

MON_SECTION(conversions, 200, 20000) {
  Rng &r = c.rng;
  for (auto &l : legacies()) {
    DDS d = sized(r);
    d = l.pf;
    const DDS before = d;
    const int res = d.FromLegacy();
    CHECK(!res, "from legacy", "%s refused", l.name);
    CHECK(int(d.dxgiFormat) == l.dxgi, "from legacy", "%s became format %u, not %d", l.name, uint32(d.dxgiFormat), l.dxgi);
    CHECK((d.alphaMode == DDS_HeaderDX10::AlphaMode_Premultiplied) == l.premultiplied, "premultiplied", "%s: alpha mode %u", l.name, uint32(d.alphaMode));
    CHECK(same(pf(d), DDSFormat_DX10), "from legacy", "%s: pixel format does not lead to the new header", l.name);
    CHECK(!memcmp(&before, &d, sizeof(DDS_Header)), "from legacy", "%s: other fields changed", l.name);
    const DDS between = d;
    const int strict = d.ToLegacy();
    CHECK((strict != 0) == l.forced, "to legacy", "%s: strict conversion back %s", l.name, strict ? "refused" : "accepted");
    if (strict) {
      CHECK(!memcmp(&between, &d, sizeof d), "refused", "%s: refused conversion changed the header", l.name);
      CHECK(!d.ToLegacy(true), "to legacy", "%s: conversion back refused", l.name);
    }
    if (l.canonical)
      CHECK(same(pf(d), l.pf), "round trip", "%s did not come back", l.name);
    else
      CHECK(d.bpp == l.pf.bpp, "round trip", "%s came back with %u bits", l.name, d.bpp);
    CHECK(!memcmp(&before, &d, sizeof(DDS_Header)), "to legacy", "%s: other fields changed", l.name);
    event("round-trips");
  }
  // all formats of the new header
  for (int f = 0; f < 134; f++) {
    for (int force = 0; force < 2; force++) {
      DDS d = sized(r);
      d = DDSFormat_DX10;
      const uint32 v = f < 130 ? f : r.u32() | 0x100;
      memcpy(&d.dxgiFormat, &v, 4);
      const bool pre = r.chance(1, 2);
      d.alphaMode = pre ? DDS_HeaderDX10::AlphaMode_Premultiplied : DDS_HeaderDX10::AlphaMode_Straight;
      const DDS before = d;
      const int res = d.ToLegacy(force);
      if (res) {
        CHECK(!memcmp(&before, &d, sizeof d), "refused", "format %u: refused conversion changed the header", v);
        event("refused-formats");
        continue;
      }
      event("converted-formats");
      const Known *k = v < 130 ? find(v) : nullptr;
      CHECK(v && v < 130, "unknown converted", "unknown format %u converted", v);
      if (k) {
        CHECK(int(d.bpp) == k->bpp, "converted bpp", "format %u became a format with %u bits per pixel", v, d.bpp);
        bool block = false, found = false;
        for (auto &l : legacies())
          if (same(l.pf, pf(d))) {
            found = true;
            block = l.block;
            const bool alphaMatters = (l.dxgi == 74 || l.dxgi == 77) && (v == 74 || v == 77);
            if (alphaMatters)
              CHECK(l.premultiplied == pre, "converted alpha", "format %u, premultiplied %d became %s", v, pre, l.name);
            // strict conversion keeps the very format
            if (!force)
              CHECK(l.dxgi == int(v), "converted", "format %u became %s", v, l.name);
          }
        if (found)
          CHECK(block == k->block, "converted block", "format %u: block compression lost or won", v);
        // masks of plain colour formats
        const uint32 rm = d.RBitMask, gm = d.GBitMask, bm = d.BBitMask;
        if (v == 28 || v == 29)
          CHECK(rm == 0xff && gm == 0xff00 && bm == 0xff0000, "masks", "format %u: red %x, green %x, blue %x", v, rm, gm, bm);
        if (v == 87 || v == 91 || v == 88 || v == 93)
          CHECK(rm == 0xff0000 && gm == 0xff00 && bm == 0xff, "masks", "format %u: red %x, green %x, blue %x", v, rm, gm, bm);
      }
      DDS e = d;
      e.dxgiFormat = DXGI_FORMAT_UNKNOWN; // as it would be read from a legacy file
      if (!e.FromLegacy() && k) {
        const Known *back = find(e.dxgiFormat);
        CHECK(back && back->bpp == k->bpp && back->block == k->block, "converted back", "format %u came back as %u", v, uint32(e.dxgiFormat));
      }
    }
  }
  // pixel formats nobody knows
  for (int k = 0; k < 20; k++) {
    DDS d = sized(r);
    PF f = r.pick(legacies()).pf;
    switch (r.below(5)) {
    case 0: f.bpp += 8; break;
    case 1: f.RBitMask ^= 1u << r.below(32); break;
    case 2: f.BBitMask ^= 1u << r.below(32); break;
    case 3: f.ABitMask ^= 1u << r.below(32); break;
    default: f.GBitMask = ~f.GBitMask;
    }
    if (f.fourCC)
      f.fourCC ^= 0x80;
    d = f;
    const DDS before = d;
    bool exists = false;
    for (auto &l : legacies())
      exists |= l.pf == f || (f.fourCC && f.fourCC == l.pf.fourCC);
    // not claimed for the alpha mask of the 10 bit format, whose published mask has no alpha
    const bool ten = f.RBitMask == 0x3ff;
    if (exists || ten)
      continue;
    CHECK(d.FromLegacy(), "unknown pixel format", "unknown pixel format became format %u", uint32(d.dxgiFormat));
    CHECK(!memcmp(&before, &d, sizeof d), "refused", "refused pixel format changed the header");
    event("unknown-pixel-formats");
  }
}

static uint32 at(const DDS &d, size_t off) {
  uint32 v;
  memcpy(&v, reinterpret_cast<const char *>(&d) + off, 4);
  return v;
}
MON_SECTION(layout, 200, 10000) {
  Rng &r = c.rng;
  DDS d;
  d.width = r.u32();
  d.height = r.u32();
  d.depth = r.u32();
  d.dxgiFormat = DXGI_FORMAT(r.below(130));
  d.arraySize = r.u32();
  CHECK(at(d, 0) == 0x20534444 && at(d, 4) == 124 && at(d, 76) == 32, "layout", "magic %x, sizes %u and %u", at(d, 0), at(d, 4), at(d, 76));
  CHECK(at(d, 8) == 0x1007 && at(d, 108) == 0x1000, "layout", "flags %x, caps %x", at(d, 8), at(d, 108));
  CHECK(at(d, 12) == d.height && at(d, 16) == d.width && at(d, 24) == d.depth, "layout", "dimensions are elsewhere");
  CHECK(at(d, 128) == uint32(d.dxgiFormat) && at(d, 132) == 3 && at(d, 140) == d.arraySize, "layout", "the second header is elsewhere");
  CHECK(DDS::LEGACY_SIZE == 128 && DDS::DDS_SIZE == 148 && sizeof(DDS) == 148, "layout", "%zu bytes", sizeof(DDS));
  uint32 mips = 0;
  for (int k = 0; k < 20; k++) {
    const uint32 other = 1u << r.below(32);
    if (r.chance(1, 3) && !(other & 0x420008)) {
      for (int b = 0; b < 32; b++)
        if (other >> b & 1) {
          d.caps00.Set(DDS_HeaderEnd::Caps00Flags(b), true);
          if (!(other & 0x20000))
            d.flags.Set(DDS_Header::Flags(b), true);
        }
    }
    const uint32 flags = at(d, 8) & ~0x20000u, caps = at(d, 108) & ~0x400008u;
    mips = r.chance(1, 3) ? r.below(2) : r.below(16);
    d.NumMipmaps(mips);
    const bool uses = mips > 1;
    CHECK(at(d, 28) == mips, "mips", "%u mips stored as %u", mips, at(d, 28));
    CHECK(at(d, 8) == (flags | (uses ? 0x20000 : 0)), "mip flags", "%u mips: flags %x, were %x", mips, at(d, 8), flags);
    CHECK(at(d, 108) == (caps | (uses ? 0x400008 : 0)), "mip caps", "%u mips: caps %x, were %x", mips, at(d, 108), caps);
    event(uses ? "mips-set" : "mips-cleared");
  }
  distinct(uint64_t(d.width) << 32 ^ d.height);
}
MON_MAIN
