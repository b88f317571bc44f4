// C05: bit fields: independent members, fixed positions, byte order.
#include "datas/bitfield.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "mon.hpp"
#include <algorithm>
#include <sstream>
using namespace mon;

template <class T> struct Acc {
  uint64_t (*get)(const T &);
  void (*set)(T &, uint64_t);
  size_t size;
};
template <class BT, class... M> struct Layout {
  using Type = BT;
  static std::vector<Acc<BT>> acc() {
    return {Acc<BT>{[](const BT &b) -> uint64_t { return b.template Get<M>(); },
                    [](BT &b, uint64_t v) { b.template Set<M>(typename BT::value_type(v)); },
                    M::size}...};
  }
};
template <class V, class Seq, size_t... S> struct Mk;
template <class V, size_t... I, size_t... S> struct Mk<V, std::index_sequence<I...>, S...> {
  using L = Layout<BitFieldType<V, BitMemberDecl<I, S>...>, BitMemberDecl<I, S>...>;
};
template <class V, size_t... S>
using L = typename Mk<V, std::make_index_sequence<sizeof...(S)>, S...>::L;

template <class LY> static void run(Case &c, const char *nm) {
  using BT = typename LY::Type;
  using V = typename BT::value_type;
  auto acc = LY::acc();
  auto &r = c.rng;
  const size_t W = sizeof(V) * 8;
  std::vector<size_t> pos;
  size_t tot = 0;
  for (auto &a : acc) {
    pos.push_back(tot);
    tot += a.size;
  }
  // canary-protected storage
  struct {
    uint64_t c0;
    BT b;
    unsigned char c1[8];
  } st;
  memset(&st, 0xa7, sizeof st);
  st.b.value = V(r.u64());
  V model = st.b.value;
  std::string log = nm;
  auto maskOf = [&](size_t i) { return (acc[i].size >= 64 ? ~0ull : (1ull << acc[i].size) - 1); };
  int n = int(4 + r.below(20));
  for (int k = 0; k < n; k++) {
    size_t i = r.below(acc.size());
    uint64_t v = r.chance(1, 4) ? r.u64() : r.edgy(unsigned(acc[i].size));
    acc[i].set(st.b, v);
    uint64_t m = maskOf(i);
    // out of range input is truncated to the member
    model = V((uint64_t(model) & ~(m << pos[i])) | ((uint64_t(V(v)) & m) << pos[i]));
    log += fmt(" [%zu]=%llx", i, (unsigned long long)v);
    CHECKR(st.b.value == model, "set", "%s raw %llx want %llx", log.c_str(),
           (unsigned long long)st.b.value, (unsigned long long)model);
    event("sets");
  }
  for (size_t i = 0; i < acc.size(); i++) {
    uint64_t want = (uint64_t(model) >> pos[i]) & maskOf(i);
    CHECK(acc[i].get(st.b) == want, "get", "%s member %zu got %llx want %llx", log.c_str(), i,
          (unsigned long long)acc[i].get(st.b), (unsigned long long)want);
    event("gets");
  }
  uint64_t c0;
  memset(&c0, 0xa7, 8);
  CHECK(st.c0 == c0 && !memcmp(st.c1, &c0, 8), "neighbour", "%s", log.c_str());
  // Byte order: writing out mirrors the member order within the word, so a
  // big endian reader finds the first member in the most significant bits.
  BT o = st.b;
  FByteswapper(o, true);
  std::string bytes((const char *)&o.value, sizeof(V));
  uint64_t be = 0;
  for (unsigned char ch : bytes)
    be = be << 8 | ch;
  for (size_t i = 0; i < acc.size(); i++) {
    uint64_t got = (be >> (W - pos[i] - acc[i].size)) & maskOf(i);
    uint64_t want = (uint64_t(model) >> pos[i]) & maskOf(i);
    CHECK(got == want, "swap-out", "%s member %zu got %llx want %llx in %s", log.c_str(), i,
          (unsigned long long)got, (unsigned long long)want, hex(bytes).c_str());
  }
  FByteswapper(o, false);
  for (size_t i = 0; i < acc.size(); i++)
    CHECK(acc[i].get(o) == acc[i].get(st.b), "swap-roundtrip", "%s member %zu %llx want %llx",
          log.c_str(), i, (unsigned long long)acc[i].get(o), (unsigned long long)acc[i].get(st.b));
  // the same through a byte swapping stream
  std::stringstream ss;
  BinWritterRef wr(ss);
  wr.SwapEndian(true);
  wr.Write(st.b);
  // (the stream never swaps one-byte objects)
  CHECK(ss.str() == bytes || sizeof(V) == 1, "stream-out", "%s %s want %s", log.c_str(), hex(ss.str()).c_str(),
        hex(bytes).c_str());
  BinReaderRef rd(ss);
  rd.SwapEndian(true);
  BT back;
  rd.Read(back);
  for (size_t i = 0; i < acc.size(); i++)
    CHECK(acc[i].get(back) == acc[i].get(st.b), "stream-roundtrip", "%s member %zu", log.c_str(), i);
  event("swaps");
  distinct(log);
  sample(log);
}

MON_SECTION(layouts, 4000, 200000) {
  switch (c.idx % 13) {
  case 0: return run<L<uint8, 1, 2, 5>>(c, "u8:1,2,5");
  case 1: return run<L<uint8, 4, 3>>(c, "u8:4,3");
  case 2: return run<L<uint16, 2, 5, 3, 1, 2, 3>>(c, "u16:2,5,3,1,2,3");
  case 3: return run<L<uint16, 15, 1>>(c, "u16:15,1");
  case 4: return run<L<uint16, 3, 7>>(c, "u16:3,7");
  case 5: return run<L<uint32, 4, 2, 4, 4, 4, 4, 4, 4, 2>>(c, "u32:4,2,4,4,4,4,4,4,2");
  case 6: return run<L<uint32, 1, 30, 1>>(c, "u32:1,30,1");
  case 7: return run<L<uint32, 31, 1>>(c, "u32:31,1");
  case 8: return run<L<uint32, 9, 3, 11>>(c, "u32:9,3,11");
  case 9: return run<L<uint64, 1, 62, 1>>(c, "u64:1,62,1");
  case 10: return run<L<uint64, 33, 31>>(c, "u64:33,31");
  case 11: return run<L<uint64, 7, 13, 29, 3, 12>>(c, "u64:7,13,29,3,12");
  default: return run<L<uint64, 40, 9>>(c, "u64:40,9");
  }
}
// every 16-bit word of one full layout
MON_SECTION(exhaustive16, 1, 1) {
  using LY = L<uint16, 2, 5, 3, 1, 2, 3>;
  auto acc = LY::acc();
  size_t p[] = {0, 2, 7, 10, 11, 13};
  for (uint32_t v = 0; v < 65536; v++) {
    LY::Type b;
    b.value = uint16(v);
    bool ok = true;
    for (size_t i = 0; i < 6; i++)
      ok &= acc[i].get(b) == ((v >> p[i]) & ((1u << acc[i].size) - 1));
    FByteswapper(b, true);
    FByteswapper(b, false);
    ok &= b.value == v;
    CHECK(ok, "exhaustive16", "%04x", v);
  }
  event("words-exhaustive", 65536);
}
MON_MAIN
