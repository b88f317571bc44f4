// C26: pointers stored in memory images.
#include "datas/pointer.hpp"
#include "mon.hpp"
#include <atomic>
#include <cstring>
#include <memory>
#include <set>
#include <thread>
using namespace mon;

namespace es {
thread_local std::vector<void *> usedPts;
}

template <class P> struct Image {
  std::unique_ptr<char[]> mem;
  size_t size;
  std::vector<size_t> slots;   // where pointers are stored
  std::vector<size_t> targets; // file offset each was written with
  std::vector<char> fixed;
  char *at(size_t o) const { return mem.get() + o; }
  P &slot(int k) const { return *reinterpret_cast<P *>(at(slots[k])); }
  uint32_t *target(int k) const { return reinterpret_cast<uint32_t *>(at(targets[k])); }
};

template <class P> static Image<P> make(Rng &r) {
  Image<P> im;
  const int n = 1 + r.len(30, 2000);
  const size_t step = sizeof(P) + (r.chance(1, 2) ? 0 : 8);
  const size_t data = 16 + n * step, words = 1 + r.below(40);
  im.size = data + words * 4;
  im.mem.reset(new char[im.size]);
  for (size_t i = 0; i < im.size; i++)
    im.mem[i] = char(r.u32());
  for (int k = 0; k < n; k++) {
    im.slots.push_back(16 + k * step);
    // null, the last word, another slot or anything
    size_t t = 0;
    switch (r.below(6)) {
    case 0: break;
    case 1: t = im.size - 4; break;
    case 2: t = 16 + step * r.below(n); break;
    case 3: t = 4 * (1 + r.below(3)); break;
    default: t = data + 4 * r.below(words); break;
    }
    // a relative pointer cannot point at itself
    if (t == im.slots.back())
      t = 4;
    im.targets.push_back(t);
    im.fixed.push_back(0);
    if (sizeof(P) == 4) {
      const uint32_t v = t;
      memcpy(im.at(im.slots.back()), &v, 4);
    } else {
      const uint64_t v = t;
      memcpy(im.at(im.slots.back()), &v, 8);
    }
  }
  return im;
}

template <class P> static void judge(const Image<P> &im, int k, const char *what) {
  P &p = im.slot(k);
  const P &cp = p;
  uint32_t *got = p;
  const uint32_t *cgot = cp;
  uint32_t *want = im.targets[k] ? im.target(k) : nullptr;
  CHECK(got == want, "target", "%s: pointer %d of offset %zu points %td bytes off", what, k, im.targets[k],
        reinterpret_cast<char *>(got) - reinterpret_cast<char *>(want));
  CHECK(cgot == want, "constant", "%s: constant pointer %d points elsewhere", what, k);
  if (want && got == want) {
    CHECK(&*p == want && &*cp == want && p.operator->() == want && cp.operator->() == want, "access", "%s: forms of access differ", what);
    CHECK(*p == *want && *cp == *want, "access", "%s: content", what);
    event("followed");
  } else
    event("nulls");
}

template <class P> static void history(Case &c, const char *name) {
  Rng &r = c.rng;
  ClearESPointers();
  std::vector<Image<P>> images;
  for (int n = 1 + r.below(3); n > 0; n--)
    images.push_back(make<P>(r));
  const int steps = 20 + r.below(120);
  uint64_t h = 0;
  for (int s = 0; s < steps; s++) {
    Image<P> &im = images[r.below(images.size())];
    const int k = r.below(im.slots.size());
    P &p = im.slot(k);
    std::vector<char> before(im.mem.get(), im.mem.get() + im.size);
    const int op = r.below(12);
    h = h * 31 + op * 1000 + k;
    bool mayChange = false;
    switch (op) {
    case 0: // assignment
      if (im.fixed[k]) {
        size_t t = r.chance(1, 4) ? 0 : r.below(im.size / 4) * 4;
        if (t == im.slots[k])
          t = 0;
        im.targets[k] = t;
        p = t ? im.target(k) : nullptr;
        mayChange = true;
        judge(im, k, "assigned");
        event(t ? "assignments" : "null-assignments");
      }
      break;
    case 1:
      if (im.fixed[k])
        judge(im, k, "looked at again");
      break;
    case 2:
      CHECK(p.Fixed() == bool(im.fixed[k]), "fixed", "%s: pointer %d is %sfixed", name, k, im.fixed[k] ? "" : "not ");
      event("queries");
      break;
    default: {
      const bool was = im.fixed[k], skip = !was && r.chance(1, 3);
      const bool did = p.Fixup(im.mem.get(), skip);
      CHECK(did == (!was && im.targets[k]), "result", "%s: fixing pointer %d of offset %zu (%s) gives %d", name, k, im.targets[k],
            was ? "again" : "first", did);
      mayChange = !was;
      im.fixed[k] = 1;
      CHECK(p.Fixed(), "fixed", "%s: pointer %d is not fixed after fixing", name, k);
      judge(im, k, was ? "fixed again" : "fixed");
      event(was ? "repeated-fixups" : "fixups");
    }
    }
    // only the pointer itself may have changed
    if (!mayChange)
      CHECK(!memcmp(before.data(), im.mem.get(), im.size), "other memory", "%s: operation %d changed the image", name, op);
    else {
      memcpy(&before[im.slots[k]], im.at(im.slots[k]), sizeof(P));
      CHECK(!memcmp(before.data(), im.mem.get(), im.size), "other memory", "%s: operation %d changed more than its pointer", name, op);
    }
  }
  for (auto &im : images)
    for (size_t k = 0; k < im.slots.size(); k++)
      if (im.fixed[k])
        judge(im, k, "at the end");
  // forgetting the fixed pointers keeps where they point
  ClearESPointers();
  for (auto &im : images)
    for (size_t k = 0; k < im.slots.size(); k++) {
      CHECK(!im.slot(k).Fixed(), "cleared", "%s: pointer still counted as fixed", name);
      if (im.fixed[k])
        judge(im, k, "cleared");
    }
  distinct(h);
}

MON_SECTION(relative, 400, 40000) { history<es::PointerX86<uint32_t>>(c, "32 bit"); }
MON_SECTION(absolute, 400, 40000) { history<esPointerX64<uint32_t>>(c, "64 bit"); }

// a fixed image of relative pointers can be moved
MON_SECTION(moved, 200, 20000) {
  using P = es::PointerX86<uint32_t>;
  ClearESPointers();
  Image<P> im = make<P>(c.rng);
  for (size_t k = 0; k < im.slots.size(); k++)
    im.slot(k).Fixup(im.mem.get());
  const size_t skip = 4 * c.rng.below(5);
  std::unique_ptr<char[]> big(new char[im.size + skip]);
  memcpy(big.get() + skip, im.mem.get(), im.size);
  for (size_t k = 0; k < im.slots.size(); k++) {
    const P &p = *reinterpret_cast<P *>(big.get() + skip + im.slots[k]);
    const char *got = reinterpret_cast<const char *>(static_cast<const uint32_t *>(p));
    const char *want = im.targets[k] ? big.get() + skip + im.targets[k] : nullptr;
    CHECK(got == want, "moved", "pointer %zu of a moved image points elsewhere", k);
    event("moved-pointers");
  }
  distinct(hashBytes(im.mem.get(), im.size));
}

// many pointers, offsets to both sides of the root
template <class P> static void many(Rng &r, const char *name) {
  ClearESPointers();
  const size_t n = 4097 + r.below(2000), size = n * sizeof(P) + 64;
  std::unique_ptr<char[]> mem(new char[size]);
  const size_t root = r.chance(1, 3) ? 0 : r.below(size);
  std::vector<int64_t> offs(n);
  memset(mem.get(), 0, size);
  for (size_t k = 0; k < n; k++) {
    const size_t to = r.below(size);
    offs[k] = to == k * sizeof(P) || r.chance(1, 10) ? 0 : int64_t(to) - int64_t(root);
    memcpy(mem.get() + k * sizeof(P), &offs[k], sizeof(P));
    event(offs[k] < 0 ? "backwards" : "forwards");
  }
  for (int pass = 0; pass < 2; pass++) // the second time nothing happens
    for (size_t k = 0; k < n; k++) {
      P &p = *reinterpret_cast<P *>(mem.get() + k * sizeof(P));
      if (pass && !r.chance(1, 8))
        continue;
      const bool did = p.Fixup(mem.get() + root, !pass);
      CHECK(did == (!pass && offs[k]), "result", "%s: fixing pointer %zu of %zu by offset %lld gives %d", name, k, n, (long long)offs[k], did);
    }
  for (size_t k = 0; k < n; k++) {
    P &p = *reinterpret_cast<P *>(mem.get() + k * sizeof(P));
    const char *got = reinterpret_cast<const char *>(static_cast<uint8_t *>(p));
    const char *want = offs[k] ? mem.get() + root + offs[k] : nullptr;
    CHECK(got == want, "target", "%s: pointer %zu of %zu by offset %lld points %td bytes off", name, k, n, (long long)offs[k], got - want);
  }
  ClearESPointers();
  event("many");
}
MON_SECTION(many, 8, 400) {
  c.idx & 1 ? many<es::PointerX86<uint8_t>>(c.rng, "32 bit") : many<esPointerX64<uint8_t>>(c.rng, "64 bit");
  distinct(c.rng.u64());
}

// each thread fixes its own images
MON_SECTION(threads, 20, 1000) {
  std::vector<std::thread> ts;
  const uint64_t seed = c.rng.u64();
  std::atomic<int> wrong{0};
  for (int t = 0; t < 4; t++)
    ts.emplace_back([&, t] {
      Rng r(seed + t);
      Image<esPointerX64<uint32_t>> im = make<esPointerX64<uint32_t>>(r);
      for (int round = 0; round < 2; round++)
        for (size_t k = 0; k < im.slots.size(); k++) {
          const bool did = im.slot(k).Fixup(im.mem.get());
          if (did != (!round && im.targets[k]))
            wrong++;
          uint32_t *got = im.slot(k);
          if (got != (im.targets[k] ? im.target(k) : nullptr))
            wrong++;
        }
      for (size_t k = 0; k < im.slots.size(); k++)
        wrong += !im.slot(k).Fixed();
      ClearESPointers();
    });
  for (auto &t : ts)
    t.join();
  CHECK(!wrong, "threads", "%d pointers fixed wrongly by concurrent threads", int(wrong));
  distinct(seed);
  event("threads", 4);
}
MON_MAIN
