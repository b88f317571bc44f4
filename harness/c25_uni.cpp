// C25: uni lists and elements, storage linked to external memory, refusals of unsupported calls.
#include "datas/allocator_hybrid.hpp"
#include "datas/deleter_hybrid.hpp"
#include "datas/matrix44.hpp"
#include "uni/list_vector.hpp"
#include "uni/model.hpp"
#include "uni/motion.hpp"
#include "uni/rts.hpp"
#include "uni/skeleton.hpp"
#include "mon.hpp"
#include <cstring>
#include <functional>
#include <map>

#include <set>
extern "C" int __sanitizer_get_ownership(const volatile void *); // of ASan: whether this is an allocated block
using namespace mon;

// live objects, so that each is destroyed exactly once
static std::set<const void *> live;
static void born(const void *p) { CHECK(live.insert(p).second, "born twice", "object constructed over a live one"); }
static void died(const void *p) { CHECK(live.erase(p), "destroyed twice", "object destroyed that was not alive"); }

class Thing : public uni::Base {
public:
  virtual int Value() const = 0;
};
class ThingImpl : public Thing {
public:
  int v;
  ThingImpl(int v_ = 0) : v(v_) { born(this); }
  ThingImpl(const ThingImpl &o) : v(o.v) { born(this); }
  ThingImpl(ThingImpl &&o) noexcept : v(o.v) {
    o.v = -1;
    born(this);
  }
  ThingImpl &operator=(const ThingImpl &) = default;
  ~ThingImpl() override { died(this); }
  int Value() const override { return v; }
  // an element that refers to the stored object
  operator uni::Element<const Thing>() const { return {this, false}; }
};
// hands out owned copies
struct ThingMaker {
  int v;
  operator uni::Element<const Thing>() const { return uni::ToElement(std::unique_ptr<const Thing>(new ThingImpl(v))); }
};

template <class L> static std::vector<int> walk(Rng &r, const L &list) {
  std::vector<int> got;
  const size_t limit = list.Size() + 8;
  switch (r.below(4)) {
  case 0:
    for (auto e : list) {
      got.push_back(e->Value());
      if (got.size() > limit)
        break;
    }
    break;
  case 1: {
    auto i = list.begin(), e = list.end();
    while (i != e && got.size() < limit) {
      auto at = i++;
      got.push_back((*at)->Value());
      CHECK(!(at == i), "iterator", "post increment did not move");
    }
    CHECK(i == e, "iterator", "walk did not end at the end");
    break;
  }
  case 2: {
    auto i = list.begin(), e = list.end();
    if (!(i == e))
      for (;;) {
        got.push_back((*i)->Value());
        CHECK((*i)->Value() == got.back(), "iterator", "second look at an element differs");
        auto &n = ++i;
        CHECK(&n == &i, "iterator", "pre increment gives another iterator");
        if (i == e || got.size() > limit)
          break;
      }
    break;
  }
  default:
    for (size_t k = 0; k < list.Size(); k++)
      got.push_back(r.chance(1, 2) ? list[k]->Value() : list.At(k)->Value());
  }
  event("walks");
  return got;
}

template <class L> static void judgeList(Rng &r, const L &list, const std::vector<int> &want, const char *what) {
  CHECK(list.Size() == want.size(), "size", "%s: size %zu, not %zu", what, list.Size(), want.size());
  const auto got = walk(r, list);
  CHECK(got == want, "walk", "%s: a walk gives %zu elements, not %zu, or others", what, got.size(), want.size());
  for (size_t past : {want.size(), want.size() + 1 + size_t(r.below(1000)), ~size_t(0)}) {
    bool refused = false;
    try {
      list.At(past);
    } catch (const std::out_of_range &) {
      refused = true;
    }
    CHECK(refused, "past the end", "%s: element %zu of %zu is not refused", what, past, want.size());
    event("refused-positions");
  }
}

MON_SECTION(lists, 300, 20000) {
  Rng &r = c.rng;
  const size_t before = live.size();
  {
    using Stored = uni::VectorList<Thing, ThingImpl>;
    using Made = uni::VectorList<Thing, ThingMaker>;
    using Poly = uni::PolyVectorList<Thing, ThingImpl>;
    using Shared = uni::PolyVectorList<Thing, ThingImpl, std::shared_ptr>;
    auto stored = std::make_unique<Stored>();
    auto made = std::make_unique<Made>();
    auto poly = std::make_unique<Poly>();
    auto shared = std::make_unique<Shared>();
    std::vector<int> want;
    const int steps = r.len(30, 600);
    for (int s = 0; s < steps; s++) {
      if (!want.empty() && r.chance(1, 4)) {
        const size_t k = r.below(want.size());
        want.erase(want.begin() + k);
        stored->storage.erase(stored->storage.begin() + k);
        made->storage.erase(made->storage.begin() + k);
        poly->storage.erase(poly->storage.begin() + k);
        shared->storage.erase(shared->storage.begin() + k);
      } else {
        const int v = int(r.u32() >> 1);
        want.push_back(v);
        stored->storage.emplace_back(v);
        made->storage.push_back({v});
        poly->storage.emplace_back(new ThingImpl(v));
        shared->storage.emplace_back(new ThingImpl(v));
      }
      if (r.chance(1, 6) || s == steps - 1) {
        judgeList(r, *stored, want, "stored list");
        judgeList(r, *made, want, "list of owned elements");
        judgeList(r, *poly, want, "polymorphic list");
        judgeList(r, *shared, want, "shared list");
        judgeList(r, static_cast<const uni::List<Thing> &>(*stored), want, "stored list as base");
        judgeList(r, static_cast<const uni::List<Thing> &>(*made), want, "list of owned elements as base");
        judgeList(r, static_cast<const uni::List<Thing> &>(*poly), want, "polymorphic list as base");
      }
    }
    uint64_t h = want.size();
    for (int v : want)
      h = h * 1000003 + v;
    distinct(h);
    if (c.idx < 3)
      sample("list of " + std::to_string(want.size()) + " elements in four storages walked and indexed");

    // elements: referring ones leave the object alone, owning ones destroy it exactly once
    const size_t mid = live.size();
    {
      uni::Element<const uni::List<Thing>> refer{stored.get(), false};
      uni::Element<const uni::List<Thing>> owner;
      std::unique_ptr<Poly> second(new Poly);
      second->storage.emplace_back(new ThingImpl(5));
      auto e = uni::ToElement(second);
      CHECK(!second, "ownership", "the unique pointer kept its object");
      CHECK(e->Size() == 1 && (*e)[0]->Value() == 5, "ownership", "element lost its object");
      CHECK(live.size() == mid + 1, "ownership", "object destroyed early");
      owner = std::move(e);
      CHECK(!e && owner->Size() == 1, "ownership", "moved element");
      owner = std::move(refer);
      CHECK(live.size() == mid, "ownership", "replaced owner left %zu objects", live.size() - mid);
      uni::Element<Thing> one = uni::ToElement(std::unique_ptr<Thing>(new ThingImpl(9)));
      uni::BaseElement base = std::move(one);
      CHECK(live.size() == mid + 1 && !one, "ownership", "element converted to its base");
      base.reset();
      CHECK(live.size() == mid, "ownership", "element reset");
      event("elements");
    }
    CHECK(live.size() == mid, "ownership", "%zu objects changed by elements", live.size() - mid);
    // an element made from the list outlives nothing
    uni::Element<uni::List<Thing>> last = uni::ToElement(std::move(poly));
    judgeList(r, *last, want, "list in an element");
  }
  CHECK(live.size() == before, "leak", "%zu objects left", live.size() - before);
}

// pointers that own or refer, from new or from malloc
template <class D> static void pointers(Rng &r, const std::function<int *(int)> &make, const std::function<void(int *)> &unmake, const char *name) {
  struct Held {
    std::unique_ptr<int, D> p;
    int *raw;
    int value;
    bool owned;
  };
  std::vector<Held> held;
  std::vector<int *> lent; // freed by this side only
  auto allocated = [](int *p) { return __sanitizer_get_ownership(p) != 0; };
  auto dropped = [&](int *raw, bool owned, const char *how) {
    CHECK(allocated(raw) == !owned, "pointer", "%s: %s object is %s after its pointer %s", name, owned ? "owned" : "lent",
          owned ? "still allocated" : "gone", how);
  };
  const int steps = 1 + r.len(30, 3000);
  for (int s = 0; s < steps; s++) {
    const int v = int(r.u32());
    int *raw = make(v);
    switch (r.below(5)) {
    case 0:
      held.push_back({std::unique_ptr<int, D>(raw), raw, v, true});
      break;
    case 1: // told that it owns
      held.push_back({std::unique_ptr<int, D>(raw, D(true)), raw, v, true});
      break;
    case 2: // told that it does not
      lent.push_back(raw);
      held.push_back({std::unique_ptr<int, D>(raw, D(false)), raw, v, false});
      break;
    default:
      unmake(raw);
      if (held.empty())
        break;
      const size_t i = r.below(held.size()), j = r.below(held.size());
      const Held &h = held[i];
      raw = h.raw;
      const bool owned = h.owned;
      if (i != j && r.chance(1, 2)) { // the deleter moves with what it deletes
        held[i] = std::move(held[j]);
        held.erase(held.begin() + j);
        dropped(raw, owned, "took another");
      } else if (r.chance(1, 3)) {
        CHECK(held[i].p.release() == raw, "pointer", "%s: released another object", name);
        held.erase(held.begin() + i);
        dropped(raw, false, "released it");
        if (owned)
          lent.push_back(raw);
      } else {
        held[i].p.reset();
        held.erase(held.begin() + i);
        dropped(raw, owned, "was reset");
      }
      break;
    }
    for (auto &h : held)
      if (r.chance(1, 1 + held.size() / 8))
        CHECK(h.p.get() == h.raw && allocated(h.raw) && *h.p == h.value, "pointer", "%s: object changed or gone", name);
  }
  event("pointers", held.size());
  std::vector<std::pair<int *, bool>> last;
  for (auto &h : held)
    last.push_back({h.raw, h.owned});
  held.clear();
  for (auto &l : last)
    dropped(l.first, l.second, "ended");
  for (auto p : lent)
    unmake(p);
}
MON_SECTION(hybrid_pointers, 300, 10000) {
  pointers<es::deleter_hybrid>(c.rng, [](int v) { return new int(v); }, [](int *p) { delete p; }, "deleter_hybrid");
  pointers<es::deleter_hybrid_c>(c.rng, [](int v) {
    int *p = static_cast<int *>(malloc(sizeof(int)));
    *p = v;
    return p;
  }, [](int *p) { free(p); }, "deleter_hybrid_c");
}

struct Values : public uni::VectorList<int, int, uni::Vector> {};
MON_SECTION(values, 100, 5000) {
  Values v;
  std::vector<int> want(c.rng.len(50, 70000));
  for (auto &w : want)
    w = int(c.rng.u32());
  v.storage = want;
  std::vector<int> a, b;
  for (auto e : static_cast<const uni::Vector<int> &>(v))
    a.push_back(e);
  for (auto e : v)
    b.push_back(e);
  CHECK(a == want && b == want, "values", "walk over plain values");
  distinct(want.size() ? want[0] : 0);
  // iterators made after a change see it
  v.storage.push_back(3);
  a.clear();
  for (auto e : v)
    a.push_back(e);
  want.push_back(3);
  CHECK(a == want, "values", "walk after a change");
  event("value-walks");
}

/* linked storage */
struct Pod {
  int a;
  short b;
  char c[6];
  bool operator==(const Pod &o) const { return a == o.a && b == o.b && !memcmp(c, o.c, 6); }
};
static void fill(Rng &r, char &o) { o = char(r.u32()); }
static void fill(Rng &r, int &o) { o = int(r.u32()); }
static void fill(Rng &r, Pod &o) {
  o.a = int(r.u32());
  o.b = short(r.u32());
  for (char &x : o.c)
    x = char(r.u32());
}

template <class T> struct External {
  T *mem;
  size_t count;
  std::vector<T> image; // what it must hold
  External(Rng &r, size_t n) : mem(static_cast<T *>(malloc(n * sizeof(T)))), count(n), image(n) {
    for (size_t i = 0; i < n; i++) {
      fill(r, image[i]);
      memcpy(static_cast<void *>(mem + i), &image[i], sizeof(T));
    }
  }
  External(const External &) = delete;
  ~External() { free(mem); }
};

template <class T> static void linked(Case &c) {
  Rng &r = c.rng;
  using Vec = std::vector<T, es::allocator_hybrid<T>>;
  std::vector<std::unique_ptr<External<T>>> ext;
  struct Slot {
    Vec v;
    std::vector<T> want;
    External<T> *link = nullptr;
  };
  std::vector<Slot> slots(3);
  std::string log;
  const auto grown = [&](Slot &s, size_t cap) {
    // leaves the linked memory when it does not fit any more
    if (s.link && s.want.size() > cap) {
      s.link = nullptr;
      event("growth-off-linked");
    }
  };
  const int steps = 5 + r.below(60);
  for (int k = 0; k < steps; k++) {
    const int i = r.below(slots.size()), j = r.below(slots.size());
    Slot &s = slots[i];
    T val;
    fill(r, val);
    const size_t cap = s.v.capacity();
    const int op = r.below(14);
    log += fmt(" %d:%d/%d", op, i, j);
    switch (op) {
    case 0: {
      ext.emplace_back(new External<T>(r, r.chance(1, 8) ? 0 : 1 + r.len(20, 2000)));
      External<T> &e = *ext.back();
      if (r.chance(1, 2))
        es::allocator_hybrid_base::LinkStorage(s.v, e.mem, e.mem + e.count);
      else
        es::allocator_hybrid_base::LinkStorage(s.v, e.mem, e.count);
      s.want = e.image;
      s.link = e.count ? &e : nullptr;
      event(e.count ? "links" : "empty-links");
      break;
    }
    case 1:
      es::allocator_hybrid_base::DisposeStorage(s.v);
      s.want.clear();
      s.link = nullptr;
      CHECK(s.v.empty() && !s.v.get_allocator().buffer, "dispose", "disposed container still linked");
      event("disposals");
      break;
    case 2:
    case 3:
      s.v.push_back(val);
      s.want.push_back(val);
      grown(s, cap);
      if (s.link)
        s.link->image[s.want.size() - 1] = val;
      break;
    case 4:
      if (!s.want.empty()) {
        s.v.pop_back();
        s.want.pop_back();
      }
      break;
    case 5:
    case 6:
      if (!s.want.empty()) {
        const size_t at = r.below(s.want.size());
        s.v[at] = val;
        s.want[at] = val;
        if (s.link) {
          s.link->image[at] = val;
          event("edits-in-place");
        }
      }
      break;
    case 7: {
      const size_t n = r.len(40, 3000);
      const size_t old = s.want.size();
      s.v.resize(n, val);
      s.want.resize(n, val);
      grown(s, cap);
      if (s.link)
        for (size_t q = old; q < n; q++)
          s.link->image[q] = val;
      break;
    }
    case 8: {
      const size_t at = r.below(s.want.size() + 1);
      s.v.insert(s.v.begin() + at, val);
      s.want.insert(s.want.begin() + at, val);
      grown(s, cap);
      if (s.link)
        std::copy(s.want.begin(), s.want.end(), s.link->image.begin());
      break;
    }
    case 9:
      if (!s.want.empty()) {
        const size_t at = r.below(s.want.size());
        s.v.erase(s.v.begin() + at);
        s.want.erase(s.want.begin() + at);
        if (s.link)
          std::copy(s.want.begin(), s.want.end(), s.link->image.begin());
      }
      break;
    case 10: { // an independent copy
      if (i == j)
        break;
      Vec copy(slots[j].v);
      std::vector<T> want = slots[j].want;
      if (!want.empty()) {
        CHECK(copy.data() != slots[j].v.data(), "copy", "a copy shares memory with its source:%s", log.c_str());
        copy[0] = val;
        want[0] = val;
      }
      s.v = std::move(copy);
      s.want = want;
      s.link = nullptr;
      event("copies");
      break;
    }
    case 11: // the link moves along
      if (i == j)
        break;
      s.v = std::move(slots[j].v);
      s.want = slots[j].want;
      s.link = slots[j].link;
      slots[j].v.clear();
      slots[j].want.clear();
      slots[j].link = nullptr;
      event("moves");
      break;
    case 12:
      s.v.reserve(s.want.size() + r.below(20));
      if (s.link && s.v.capacity() > cap)
        s.link = nullptr;
      break;
    default:
      s.v.clear();
      s.want.clear();
    }
    for (auto &q : slots) {
      CHECK(q.v.size() == q.want.size(), "content", "%zu elements, not %zu:%s", q.v.size(), q.want.size(), log.c_str());
      for (size_t n = 0; n < q.want.size() && n < q.v.size(); n++)
        if (!(q.v[n] == q.want[n])) {
          CHECK(false, "content", "element %zu of %zu differs:%s", n, q.want.size(), log.c_str());
          break;
        }
      if (q.link && !q.want.empty())
        CHECK(q.v.data() == q.link->mem, "link", "linked container has moved off its memory:%s", log.c_str());
      else if (!q.want.empty())
        for (auto &e : ext)
          CHECK(q.v.data() != e->mem, "link", "container that is not linked uses linked memory:%s", log.c_str());
    }
    for (auto &e : ext)
      for (size_t n = 0; n < e->count; n++)
        if (!(e->mem[n] == e->image[n])) {
          CHECK(false, "external memory", "element %zu of the linked memory changed:%s", n, log.c_str());
          return;
        }
  }
  distinct(hashBytes(log.data(), log.size()));
}

MON_SECTION(linked, 600, 40000) {
  switch (c.idx % 3) {
  case 0: linked<char>(c); break;
  case 1: linked<int>(c); break;
  default: linked<Pod>(c);
  }
}

/* unsupported calls, and the ones a class does offer */
template <int KIND> static int refusal(const std::function<void()> &fn, const char *what) {
  try {
    fn();
  } catch (const std::logic_error &e) {
    CHECK(*e.what(), "refusal", "%s: logic error without a message", what);
    return 1;
  } catch (const std::runtime_error &e) {
    CHECK(*e.what(), "refusal", "%s: runtime error without a message", what);
    return 2;
  } catch (const std::exception &e) {
    CHECK(false, "refusal", "%s: refused with an exception of neither kind (%s)", what, e.what());
    return 3;
  } catch (...) {
    CHECK(false, "refusal", "%s: refused with something that is not an exception", what);
    return 4;
  }
  CHECK(false, "refusal", "%s: not refused", what);
  return 0;
}

struct Track : uni::MotionTrack {
  TrackType_e type;
  TrackType_e TrackType() const override { return type; }
  size_t BoneIndex() const override { return 0; }
};
struct Mot : uni::Motion {
  std::string Name() const override { return "m"; }
  uint32 FrameRate() const override { return 30; }
  float Duration() const override { return 1; }
  uni::MotionTracksConst Tracks() const override { return {}; }
  MotionType_e MotionType() const override { return Absolute; }
};
struct B : uni::Bone {
  uni::TransformType type;
  uni::TransformType TMType() const override { return type; }
  const Bone *Parent() const override { return nullptr; }
  size_t Index() const override { return 0; }
  std::string Name() const override { return "b"; }
};
struct Sk : uni::Skin {
  uni::TransformType type;
  size_t NumNodes() const override { return 0; }
  uni::TransformType TMType() const override { return type; }
  size_t NodeIndex(size_t) const override { return 0; }
};
struct Desc : uni::PrimitiveDescriptor {
  uni::FormatDescr type;
  uni::BBOX box;
  UnpackDataType_e unpack;
  std::vector<char> data;
  size_t offset, stride;
  const char *RawBuffer() const override { return data.data() + offset; }
  size_t Stride() const override { return stride; }
  size_t Offset() const override { return offset; }
  size_t Index() const override { return 0; }
  Usage_e Usage() const override { return Usage_e::Position; }
  uni::FormatDescr Type() const override { return type; }
  uni::BBOX UnpackData() const override { return box; }
  UnpackDataType_e UnpackDataType() const override { return unpack; }
};

MON_SECTION(refusals, 40, 400) {
  // a class that claims the kind but does not provide it: a mistake of the class (logic error); else of the caller
  for (int t = 0; t < 6; t++) {
    Track tr;
    tr.type = uni::MotionTrack::TrackType_e(t);
    uni::RTSValue rts;
    esMatrix44 m;
    Vector4A16 v;
    float f;
    const auto want = [&](bool logic, int got, const char *what) {
      CHECK(got == (logic ? 1 : 2), "refusal kind", "track of kind %d, %s: kind of error %d", t, what, got);
      event("refused-calls");
    };
    want(tr.type == uni::MotionTrack::PositionRotationScale, refusal<0>([&] { tr.GetValue(rts, 0.f); }, "track RTS"), "RTS");
    want(tr.type == uni::MotionTrack::Matrix, refusal<0>([&] { tr.GetValue(m, 0.f); }, "track matrix"), "matrix");
    want(t < 3, refusal<0>([&] { tr.GetValue(v, 0.f); }, "track vector"), "vector");
    want(tr.type == uni::MotionTrack::SingleFloat, refusal<0>([&] { tr.GetValue(f, 0.f); }, "track float"), "float");
  }
  for (auto t : {uni::TMTYPE_RTS, uni::TMTYPE_MATRIX}) {
    B b;
    b.type = t;
    Sk s;
    s.type = t;
    uni::RTSValue rts;
    esMatrix44 m;
    CHECK(refusal<0>([&] { b.GetTM(rts); }, "bone RTS") == (t == uni::TMTYPE_RTS ? 1 : 2), "refusal kind", "bone RTS %d", t);
    CHECK(refusal<0>([&] { b.GetTM(m); }, "bone matrix") == (t == uni::TMTYPE_MATRIX ? 1 : 2), "refusal kind", "bone matrix %d", t);
    CHECK(refusal<0>([&] { s.GetTM(rts, 0); }, "skin RTS") == (t == uni::TMTYPE_RTS ? 1 : 2), "refusal kind", "skin RTS %d", t);
    CHECK(refusal<0>([&] { s.GetTM(m, 0); }, "skin matrix") == (t == uni::TMTYPE_MATRIX ? 1 : 2), "refusal kind", "skin matrix %d", t);
    event("refused-calls", 4);
  }
  Mot mot;
  try {
    static_cast<uni::Motion &>(mot).FrameRate(c.rng.u32());
    CHECK(false, "refusal", "frame rate of a constant motion changed");
  } catch (const std::exception &e) {
    CHECK(strstr(e.what(), "FrameRate"), "refusal", "message does not name what was refused: %s", e.what());
  } catch (...) {
    CHECK(false, "refusal", "refused with something that is not an exception");
  }
}

// descriptor data is sampled and then scaled and moved as its descriptor says
MON_SECTION(descriptors, 200, 20000) {
  Rng &r = c.rng;
  Desc d;
  d.type = {uni::FormatType::FLOAT, uni::DataType::R32G32B32};
  const size_t count = 1 + r.len(30, 3000);
  d.offset = r.below(3) * 4;
  d.stride = 12 + r.below(5) * 4;
  d.data.resize(d.offset + d.stride * (count - 1) + 12);
  const auto num = [&] { return float(int(r.below(2001)) - 1000) / 8; };
  for (size_t i = 0; i + 4 <= d.data.size(); i += 4) {
    const float f = num();
    memcpy(d.data.data() + i, &f, 4);
  }
  d.box.min = Vector4A16(num(), num(), num(), num());
  d.box.max = Vector4A16(num(), num(), num(), num());
  const int kind = r.below(5);
  d.unpack = uni::PrimitiveDescriptor::UnpackDataType_e(kind);
  uni::FormatCodec::fvec out;
  d.Codec().Sample(out, d.RawBuffer(), count, d.Stride());
  d.Resample(out);
  CHECK(out.size() == count, "descriptor", "%zu of %zu values", out.size(), count);
  for (size_t i = 0; i < out.size(); i++)
    for (int k = 0; k < 4; k++) {
      float x = 0;
      if (k < 3)
        memcpy(&x, d.RawBuffer() + i * d.stride + k * 4, 4);
      const float a = d.box.min._arr[k], b = d.box.max._arr[k];
      const float want = kind == 1 ? x + a : kind == 2 ? x * a : kind == 3 ? b + x * a : x;
      CHECK(out[i]._arr[k] == want, "descriptor", "kind %d, component %d of value %zu: %g, not %g", kind, k, i, out[i]._arr[k], want);
    }
  distinct(hashBytes(d.data.data(), d.data.size()));
  event("descriptors");
}
MON_MAIN
