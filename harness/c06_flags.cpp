// C06: es::Flags behaves as a set of enum members.
#include "datas/flags.hpp"
#include "mon.hpp"
#include <set>
using namespace mon;

enum class Wide : uint32 { m };

template <class E, class ST> static void run(Case &c, const char *nm) {
  using F = es::Flags<E, ST>;
  auto &r = c.rng;
  const size_t W = sizeof(ST) * 8;
  struct {
    uint64_t c0;
    F f;
    unsigned char c1[8];
  } st;
  memset((void *)&st, 0x3b, sizeof st);
  std::set<size_t> m;
  std::string log = nm;
  switch (r.below(3)) {
  case 0:
    new (&st.f) F();
    break;
  case 1: {
    size_t a = r.below(W), b = r.below(W), d = r.below(W);
    new (&st.f) F(E(a), E(b), E(d));
    m = {a, b, d};
    log += fmt(" ctor(%zu,%zu,%zu)", a, b, d);
    break;
  }
  default: {
    size_t a = r.below(W), b = r.below(W), d = r.below(W);
    const F base{E(a), E(b)};
    new (&st.f) F(base, E(d));
    m = {a, b, d};
    log += fmt(" ctor(F(%zu,%zu),%zu)", a, b, d);
  }
  }
  auto raw = [&] {
    uint64_t v = 0;
    for (auto i : m)
      v |= 1ull << i;
    return v;
  };
  int n = int(5 + r.below(40));
  for (int k = 0; k < n; k++) {
    size_t i = r.below(W);
    switch (r.below(6)) {
    case 0:
      st.f += E(i);
      m.insert(i);
      log += fmt(" +%zu", i);
      break;
    case 1:
      st.f -= E(i);
      m.erase(i);
      log += fmt(" -%zu", i);
      break;
    case 2:
      st.f.Set(E(i), true);
      m.insert(i);
      log += fmt(" s%zu", i);
      break;
    case 3:
      st.f.Set(E(i), false);
      m.erase(i);
      log += fmt(" c%zu", i);
      break;
    case 4: {
      (st.f += E(i)) -= E((i + 1) % W);
      m.insert(i);
      m.erase((i + 1) % W);
      log += fmt(" +%zu-%zu", i, (i + 1) % W);
      break;
    }
    default:
      if (r.chance(1, 4)) {
        ST v = ST(r.u64());
        st.f = v;
        m.clear();
        for (size_t b = 0; b < W; b++)
          if ((uint64_t(v) >> b) & 1)
            m.insert(b);
        log += fmt(" =%llx", (unsigned long long)v);
      }
    }
    event("flag-ops");
    CHECKR(uint64_t(static_cast<ST>(st.f)) == raw(), "raw", "%s raw %llx want %llx", log.c_str(),
           (unsigned long long)static_cast<ST>(st.f), (unsigned long long)raw());
  }
  for (size_t i = 0; i < W; i++) {
    bool in = m.count(i);
    CHECK(st.f[E(i)] == in && (st.f == E(i)) == in && (st.f != E(i)) == !in, "membership",
          "%s member %zu want %d", log.c_str(), i, in);
    event("flag-queries");
  }
  F copy(st.f), other(st.f);
  size_t t = r.below(W);
  other.Set(E(t), !m.count(t));
  CHECK(copy == st.f && !(copy != st.f), "equality", "%s", log.c_str());
  CHECK(other != st.f && !(other == st.f), "inequality", "%s", log.c_str());
  CHECK(sizeof(F) == sizeof(ST), "size", "%s", nm);
  uint64_t c0;
  memset(&c0, 0x3b, 8);
  CHECK(st.c0 == c0 && !memcmp(st.c1, &c0, 8), "neighbour", "%s", log.c_str());
  distinct(log);
  sample(log);
}
enum E8 : uint8 {};
enum E16 : uint16 {};
MON_SECTION(sets, 3000, 100000) {
  switch (c.idx % 6) {
  case 0: return run<E8, uint8>(c, "enum8/8");
  case 1: return run<E8, uint16>(c, "enum8/16");
  case 2: return run<E8, uint32>(c, "enum8/32");
  case 3: return run<E8, uint64>(c, "enum8/64");
  case 4: return run<E16, uint64>(c, "enum16/64");
  default: return run<Wide, uint32>(c, "enum32/32");
  }
}
MON_MAIN
