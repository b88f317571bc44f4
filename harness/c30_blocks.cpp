// C30: compressed blocks.
#include "formats/BlockDecoder.inl"
#include "formats/BlockDecoderSimd.hpp"
#include "mon.hpp"
#include <cmath>
#include <cstring>
#include <memory>
#include <sys/mman.h>
using namespace mon;

typedef unsigned char u8;
struct Pixel {
  double v[4];       // what the format stands for
  double tol[4];
  bool set[4]{};     // whether it is written at all
};
static void put(Pixel &p, int chan, double v, double tol) {
  p.v[chan] = v;
  p.tol[chan] = tol;
  p.set[chan] = true;
}

// colours, blue first; three: whether blocks with three colours and transparency exist
static void colors(const u8 *d, Pixel *out, double tol, bool three, bool alpha) {
  const unsigned c[2] = {unsigned(d[0] | d[1] << 8), unsigned(d[2] | d[3] << 8)};
  double rgb[4][3];
  for (int k = 0; k < 2; k++) {
    rgb[k][0] = (c[k] & 31) * 255. / 31;
    rgb[k][1] = (c[k] >> 5 & 63) * 255. / 63;
    rgb[k][2] = (c[k] >> 11) * 255. / 31;
  }
  const bool has3 = three && c[0] <= c[1];
  for (int i = 0; i < 3; i++) {
    rgb[2][i] = has3 ? (rgb[0][i] + rgb[1][i]) / 2 : (2 * rgb[0][i] + rgb[1][i]) / 3;
    rgb[3][i] = has3 ? 0 : (rgb[0][i] + 2 * rgb[1][i]) / 3;
  }
  for (int p = 0; p < 16; p++) {
    const int index = d[4 + p / 4] >> p % 4 * 2 & 3;
    const bool clear = has3 && index == 3;
    for (int i = 0; i < 3; i++)
      // colours of transparent pixels are not claimed
      put(out[p], i, rgb[index][i], clear ? 255 : has3 && index == 2 ? tol + 1 : tol);
    if (alpha)
      put(out[p], 3, clear ? 0 : 255, 0);
  }
}
static void channel(const u8 *d, Pixel *out, int chan) {
  double v[8] = {double(d[0]), double(d[1])};
  const int steps = d[0] > d[1] ? 7 : 5;
  for (int k = 1; k < steps; k++)
    v[k + 1] = ((steps - k) * v[0] + k * v[1]) / steps;
  if (steps == 5)
    v[6] = 0, v[7] = 255;
  uint64_t bits = 0;
  for (int k = 0; k < 6; k++)
    bits |= uint64_t(d[2 + k]) << 8 * k;
  for (int p = 0; p < 16; p++)
    put(out[p], chan, v[bits >> 3 * p & 7], 1);
}

struct Kind {
  const char *name;
  int bytes, channels;
  void (*decode)(const char *, char *, uint32, uint32, uint32);
  void (*reference)(const u8 *, Pixel *);
};
static const Kind kinds[] = {
    {"BC1", 8, 3, DecodeBC1Block, [](const u8 *d, Pixel *p) { colors(d, p, 1.01, false, false); }},
    {"BC1A", 8, 4, DecodeBC1BlockA, [](const u8 *d, Pixel *p) { colors(d, p, 1.01, true, true); }},
    {"BC2", 16, 4, DecodeBC2Block,
     [](const u8 *d, Pixel *p) {
       colors(d + 8, p, 1.01, false, false);
       for (int k = 0; k < 16; k++)
         put(p[k], 3, (d[k / 2] >> k % 2 * 4 & 15) * 17, 0);
     }},
    {"BC3", 16, 4, DecodeBC3Block,
     [](const u8 *d, Pixel *p) {
       colors(d + 8, p, 1.01, false, false);
       channel(d, p, 3);
     }},
    {"BC4", 8, 1, DecodeBC4Block, [](const u8 *d, Pixel *p) { channel(d, p, 0); }},
    {"BC5", 16, 3, DecodeBC5Block,
     [](const u8 *d, Pixel *p) {
       channel(d, p, 1);
       channel(d + 8, p, 2);
     }},
    {"BC5GA", 16, 2, DecodeBC5BlockGA,
     [](const u8 *d, Pixel *p) {
       channel(d, p, 0);
       channel(d + 8, p, 1);
     }},
    {"BC1 SIMD", 8, 3, [](const char *a, char *b, uint32 w, uint32 h, uint32 width) { _SDecodeBC1Block(a, b, w, h, width); },
     [](const u8 *d, Pixel *p) { colors(d, p, 9, false, false); }},
};

static void block(Rng &r, u8 *d, int n) {
  for (int k = 0; k < n; k++)
    d[k] = u8(r.u32());
  for (int k = 0; k < n; k += 8)
    switch (r.below(8)) {
    case 0: d[k] = 0xff, d[k + 1] = 0xff; break;             // white
    case 1: d[k] = d[k + 1] = 0; break;                      // black
    case 2: d[k + 2] = d[k], d[k + 3] = d[k + 1]; break;     // same colour
    case 3: d[k + 1] = d[k]; break;                          // same value
    case 4: d[k + 2] = d[k + 3] = 0xff; break;
    case 5: d[k] = r.below(2) ? 255 : 0, d[k + 1] = 255 - d[k]; break;
    case 6: memset(d + k + 4, r.below(2) ? 0xff : 0xe4, 4); break;
    }
}

MON_SECTION(images, 2000, 200000) {
  Rng &r = c.rng;
  for (const Kind &kind : kinds) {
    const unsigned bw = 1 + r.below(4), bh = 1 + r.below(4); // in blocks
    const size_t stride = bw * 4 * kind.channels, size = stride * bh * 4;
    std::unique_ptr<char[]> image(new char[size]);
    std::vector<u8> want(size);
    for (size_t k = 0; k < size; k++)
      image[k] = char(want[k] = u8(r.u32()));
    std::vector<Pixel> pixels(bw * 4 * bh * 4);
    const unsigned todo = 1 + r.below(bw * bh + 1);
    for (unsigned n = 0; n < todo; n++) {
      std::unique_ptr<u8[]> data(new u8[kind.bytes]);
      block(r, data.get(), kind.bytes);
      const unsigned x = r.below(bw), y = r.below(bh);
      const std::vector<u8> copy(data.get(), data.get() + kind.bytes);
      kind.decode(reinterpret_cast<const char *>(data.get()), image.get(), x, y, bw);
      CHECK(!memcmp(copy.data(), data.get(), kind.bytes), "input", "%s changed its input", kind.name);
      Pixel out[16];
      kind.reference(copy.data(), out);
      for (int p = 0; p < 16; p++)
        pixels[(y * 4 + p / 4) * bw * 4 + x * 4 + p % 4] = out[p];
      event(kind.name);
      if (kind.channels != 1 && (copy[kind.bytes - 8] | copy[kind.bytes - 7] << 8) <= (copy[kind.bytes - 6] | copy[kind.bytes - 5] << 8))
        event("second-color-higher");
      else
        event("first-color-higher");
      if (c.idx < 2 && !n)
        sample(fmt("%s block %s at %u,%u of %ux%u blocks", kind.name, hex(copy.data(), copy.size()).c_str(), x, y, bw, bh));
      distinct(hashBytes(copy.data(), copy.size()));
    }
    for (size_t p = 0; p < pixels.size(); p++)
      for (int chan = 0; chan < kind.channels; chan++) {
        const u8 got = u8(image[p * kind.channels + chan]);
        const u8 old = want[p * kind.channels + chan];
        if (!pixels[p].set[chan])
          CHECK(got == old, "outside", "%s: channel %d of pixel %zu written, which no block covers", kind.name, chan, p);
        else
          CHECK(std::fabs(got - pixels[p].v[chan]) <= pixels[p].tol[chan] + 1e-9, "pixel", "%s: channel %d of pixel %zu is %u, not %.2f", kind.name,
                chan, p, got, pixels[p].v[chan]);
      }
    event("pixels", pixels.size());
  }
}

// images so large that few of their pages are ever touched
MON_SECTION(large, 40, 1500) {
  Rng &r = c.rng;
  for (const Kind &kind : kinds) {
    uint64 bw = 1 + r.below(r.chance(1, 2) ? 70000 : 8), most = 0xffffffffull / (bw * 16 * kind.channels);
    uint64 bh = 1 + r.below(unsigned(std::min<uint64>(most, r.chance(1, 2) ? 70000 : 20000)));
    if (r.chance(1, 4))
      bh = most;
    const size_t stride = bw * 4 * kind.channels, size = stride * bh * 4;
    void *const mem = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mem == MAP_FAILED)
      return;
    char *const image = static_cast<char *>(mem);
    for (unsigned n = 1 + r.below(4); n; n--) {
      std::unique_ptr<u8[]> data(new u8[kind.bytes]);
      block(r, data.get(), kind.bytes);
      const unsigned x = r.chance(1, 3) ? unsigned(bw) - 1 : r.below(unsigned(bw)), y = r.chance(1, 3) ? unsigned(bh) - 1 : r.below(unsigned(bh));
      char *const at = image + y * 4 * stride + x * 4 * kind.channels;
      for (int row = 0; row < 4; row++)
        memset(at + row * stride, 0, 4 * kind.channels);
      kind.decode(reinterpret_cast<const char *>(data.get()), image, x, y, unsigned(bw));
      Pixel out[16];
      kind.reference(data.get(), out);
      for (int p = 0; p < 16; p++)
        for (int chan = 0; chan < kind.channels; chan++) {
          const u8 got = u8(at[p / 4 * stride + p % 4 * kind.channels + chan]);
          if (out[p].set[chan])
            CHECK(std::fabs(got - out[p].v[chan]) <= out[p].tol[chan] + 1e-9, "large image", "%s at %u,%u of %llux%llu blocks: channel %d of pixel %d is %u, not %.2f",
                  kind.name, x, y, (unsigned long long)bw, (unsigned long long)bh, chan, p, got, out[p].v[chan]);
        }
      event("large-images");
      if (size_t(at - image) > 0x7fffffff)
        event("beyond-2gb");
      distinct(hashBytes(data.get(), kind.bytes, x + y));
    }
    munmap(mem, size);
  }
}

// all 16 bit colours
MON_SECTION(allcolors, 64, 64) {
  for (unsigned k = c.idx * 1024; k < (c.idx + 1) * 1024; k++) {
    const char d[2] = {char(k), char(k >> 8)};
    Vector v;
    DecodeRGB565Block(d, v);
    CHECK(std::fabs(v.X - (k & 31) / 31.) < 1e-6 && std::fabs(v.Y - (k >> 5 & 63) / 63.) < 1e-6 && std::fabs(v.Z - (k >> 11) / 31.) < 1e-6, "color",
          "color %04x is %g %g %g", k, v.X, v.Y, v.Z);
    for (int way = 0; way < 2; way++) {
      u8 b[8]{};
      memcpy(b + way * 2, d, 2);
      memset(b + 4, way ? 0x55 : 0, 4);
      for (const Kind &kind : {kinds[0], kinds[1], kinds[7]}) {
        std::unique_ptr<char[]> image(new char[16 * kind.channels]);
        kind.decode(reinterpret_cast<const char *>(b), image.get(), 0, 0, 1);
        Pixel out[16];
        kind.reference(b, out);
        for (int p = 0; p < 16; p++)
          for (int i = 0; i < kind.channels; i++)
            CHECK(std::fabs(u8(image[p * kind.channels + i]) - out[p].v[i]) <= out[p].tol[i] + 1e-9, "single color", "%s, color %04x: channel %d is %u", kind.name, k,
                  i, u8(image[p * kind.channels + i]));
      }
    }
    event("colors");
  }
}

// the third component of normals
MON_SECTION(normals, 256, 256) {
  Rng &r = c.rng;
  const size_t n = 256;
  std::unique_ptr<char[]> buf(new char[n * 3]);
  for (size_t k = 0; k < n; k++) {
    buf[k * 3] = char(r.u32());
    buf[k * 3 + 1] = char(k);
    buf[k * 3 + 2] = char(c.idx);
  }
  ComputeBC5Blue(buf.get(), n * 3);
  for (size_t k = 0; k < n; k++) {
    const double x = k * 2 / 255. - 1, y = c.idx * 2 / 255. - 1;
    const double z = std::sqrt(std::max(0., 1 - x * x - y * y));
    const double want = (z + 1) * 127;
    CHECK(u8(buf[k * 3 + 1]) == k && u8(buf[k * 3 + 2]) == c.idx, "normal input", "first components changed");
    // near the edge the root magnifies rounding
    CHECK(std::fabs(u8(buf[k * 3]) - want) <= 1.01 + (z < 0.01 ? 1 : 0), "normal", "%zu,%llu: %u, not %.2f", k, (unsigned long long)c.idx, u8(buf[k * 3]), want);
    event("normals");
  }
}
MON_MAIN
