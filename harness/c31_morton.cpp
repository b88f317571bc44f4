// C31: swizzled texture addresses.
#include "formats/addr_ps3.hpp"
#include "mon.hpp"
#include <memory>
using namespace mon;

// bits of the shorter side and as many of the longer one interleaved, x first, the rest of the longer one above them
static size_t reference(size_t x, size_t y, int w, int h) {
  size_t out = 0;
  int at = 0;
  for (int b = 0; b < w || b < h; b++) {
    if (b < w)
      out |= (x >> b & 1) << at++;
    if (b < h)
      out |= (y >> b & 1) << at++;
  }
  return out;
}

static void texture(Case &c, int w, int h) {
  Rng &r = c.rng;
  std::unique_ptr<MortonSettings> s(new MortonSettings(size_t(1) << w, size_t(1) << h)); // on the heap: redzones around its masks
  const size_t size = size_t(1) << (w + h);
  CHECK(s->width == size_t(1) << w && s->height == size_t(1) << h, "dimensions", "dimensions are %zux%zu", s->width, s->height);
  const auto one = [&](size_t x, size_t y) {
    const size_t got = MortonAddr(x, y, *s), want = reference(x, y, w, h);
    CHECK(got < size, "outside", "%zu,%zu of 2^%d x 2^%d is at %zu, outside", x, y, w, h, got);
    CHECK(got == want, "address", "%zu,%zu of 2^%d x 2^%d is at %zu, not %zu", x, y, w, h, got, want);
    event("addresses");
    distinct(size_t(got) << 12 ^ size_t(w << 6 | h));
    return got;
  };
  if (w + h <= 16) { // all of them
    std::vector<bool> seen(size);
    for (size_t y = 0; y < size_t(1) << h; y++)
      for (size_t x = 0; x < size_t(1) << w; x++) {
        const size_t a = one(x, y);
        if (a < size) {
          CHECK(!seen[a], "twice", "%zu,%zu of 2^%d x 2^%d is where another pixel is", x, y, w, h);
          seen[a] = true;
        }
      }
    event("whole-textures");
  } else {
    for (int k = 0; k < w; k++)
      one(size_t(1) << k, 0);
    for (int k = 0; k < h; k++)
      one(0, size_t(1) << k);
    one((size_t(1) << w) - 1, (size_t(1) << h) - 1);
    for (int k = 0; k < 3000; k++)
      one(r.u64() & ((size_t(1) << w) - 1), r.u64() & ((size_t(1) << h) - 1));
    event("sampled-textures");
  }
  event(w == h ? "square" : w > h ? "wide" : "tall");
}
MON_SECTION(sizes, 324, 324) { texture(c, c.idx % 18, c.idx / 18); } // up to 131072, each pair
// any powers of two whose product fits
MON_SECTION(huge, 200, 4000) {
  const int w = c.rng.below(32), h = c.rng.below(32);
  texture(c, w, h);
}
MON_MAIN
