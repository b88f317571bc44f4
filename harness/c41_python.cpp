// C41: the Python bindings, met through an embedded interpreter. Python 2 names are mapped by py2/Python.h.
#include <Python.h>
#include "mon.hpp"
#include "uni/python/uni_python.cpp"
#include "uni/list_vector.hpp"
#include "datas/python/reflected_enum.hpp"
#include "datas/reflector.hpp"
#include <cmath>
#include <map>
#include <memory>
#include <unordered_map>
using namespace mon;

REFLECTOR_CREATE(Level, ENUM, 1, CLASS, Low, Middle, High = 7);
REFLECTOR_CREATE(Kind, ENUM, 2, CLASS, 8, KA = 3, KB, KC = 0x80, KD, KE = 1);
REFLECTOR_CREATE(One, ENUM, 1, CLASS, Only);
REFLECTOR_CREATE(Wide, ENUM, 2, CLASS, 64, WA = 0x100000000, WB = 12345678901, WC = 0, WD);

// ---------------------------------------------------------------- interpreter
static PyObject *gNone, *gModule, *gHelp;
extern "C" PyObject *shimNone() { return gNone; }

// every block of the interpreter, to see which objects of the bindings live
static std::unordered_map<void *, size_t> *gLive;
static void *aMalloc(void *, size_t n) {
  void *p = malloc(n ? n : 1);
  if (p) (*gLive)[p] = n;
  return p;
}
static void *aCalloc(void *, size_t a, size_t b) {
  void *p = calloc(a ? a : 1, b ? b : 1);
  if (p) (*gLive)[p] = a * b;
  return p;
}
static void aFree(void *, void *p) {
  if (p) gLive->erase(p);
  free(p);
}
static void *aRealloc(void *, void *p, size_t n) {
  if (p) gLive->erase(p);
  void *q = realloc(p, n ? n : 1);
  if (q) (*gLive)[q] = n;
  return q;
}
static std::vector<PyTypeObject *> gTypes;
static size_t livingOf(PyTypeObject *t) {
  size_t n = 0;
  for (auto &b : *gLive)
    if (b.second >= sizeof(PyObject) && static_cast<PyObject *>(b.first)->ob_type == t)
      n++;
  return n;
}
static size_t living() {
  size_t n = 0;
  for (auto t : gTypes)
    n += livingOf(t);
  return n;
}

using LevelPy = ReflectedEnumPy<Level>;
using KindPy = ReflectedEnumPy<Kind>;
using OnePy = ReflectedEnumPy<One>;
using WidePy = ReflectedEnumPy<Wide>;

static void start() {
  if (gModule)
    return;
  gLive = new std::unordered_map<void *, size_t>;
  PyMemAllocatorEx al{nullptr, aMalloc, aCalloc, aRealloc, aFree};
  PyConfig cfg;
  PyPreConfig pre;
  PyPreConfig_InitIsolatedConfig(&pre);
  pre.utf8_mode = 1;
  Py_PreInitialize(&pre);
  PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &al);
  PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &al);
  PyConfig_InitIsolatedConfig(&cfg);
  cfg.site_import = 0;
  cfg.install_signal_handlers = 0;
  PyStatus st = Py_InitializeFromConfig(&cfg);
  if (PyStatus_Exception(st)) {
    fprintf(stderr, "no interpreter: %s\n", st.err_msg ? st.err_msg : "?");
    exit(3);
  }
  PyConfig_Clear(&cfg);
  gModule = PyModule_New("uni");
  PyObject *code = PyImport_AddModule("__main__"), *d = PyModule_GetDict(code);
  PyObject *r = PyRun_String("class Nothing: pass\n"
                             "nothing = Nothing()\n"
                             "class Bad:\n"
                             "  def __float__(self): raise KeyError('bad')\n"
                             "  def __index__(self): raise KeyError('bad')\n"
                             "class Evil:\n"
                             "  def __float__(self):\n"
                             "    self.list.clear()\n"
                             "    self.list = None\n"
                             "    return 1.5\n"
                             "class Half:\n"
                             "  def __float__(self): return 0.5\n"
                             "  def __index__(self): return 1\n",
                             Py_file_input, d, d);
  if (!r) {
    PyErr_Print();
    exit(3);
  }
  Py_DECREF(r);
  gNone = PyDict_GetItemString(d, "nothing");
  Py_INCREF(gNone);
  gHelp = d;
  UniPy::Motion::InitType(gModule);
  UniPy::Skeleton::InitType(gModule);
  PyAddType<LevelPy>(gModule), PyAddType<KindPy>(gModule), PyAddType<OnePy>(gModule);
  PyAddType(gModule, WidePy::GetType());
  gTypes = {UniPy::Bone::GetType(), UniPy::Skeleton::GetType(), UniPy::Skeleton::GetListType(), UniPy::BoneList::GetType(),
            UniPy::Motion::GetType(), UniPy::Motion::GetListType(), UniPy::MotionTrack::GetType(), UniPy::MotionTrackList::GetType(),
            UniPy::TrackTypeEnum::GetType(), UniPy::MotionTypeEnum::GetType(), UniPy::BoneTMTypeEnum::GetType(), LevelPy::GetType(),
            KindPy::GetType(), OnePy::GetType(), WidePy::GetType()};
}

// A reference owned by the harness; what a call gave, checked to be a value or an error but never both.
struct Ref {
  PyObject *p = nullptr;
  std::string err;
  Ref() = default;
  Ref(PyObject *o, const char *what) : p(o) {
    PyObject *e = PyErr_Occurred();
    CHECK(bool(o) != bool(e), "value-or-error", "%s gives %s", what, o ? "a value and an error" : "neither a value nor an error");
    take();
    eval();
  }
  void take() {
    PyObject *e = PyErr_Occurred();
    if (e) {
      err = reinterpret_cast<PyTypeObject *>(e)->tp_name;
      PyErr_Clear();
    } else if (!p)
      err = "nothing";
  }
  Ref(const Ref &) = delete;
  Ref(Ref &&o) : p(o.p), err(o.err) { o.p = nullptr; }
  Ref &operator=(Ref &&o) {
    std::swap(p, o.p), err = o.err;
    return *this;
  }
  ~Ref() { Py_XDECREF(p); }
  explicit operator bool() const { return p; }
};
static Ref attr(PyObject *o, const char *n) { return {PyObject_GetAttrString(o, n), n}; }
static Ref item(PyObject *o, Ref i) { return {PyObject_GetItem(o, i.p), "[]"}; }
static Ref number(long long v) { return {PyLong_FromLongLong(v), "number"}; }
static Ref help(const char *n) {
  PyObject *o = PyDict_GetItemString(gHelp, n);
  Ref r;
  r.p = PyObject_CallNoArgs(o);
  return r;
}

static std::string bytesOf(const Ref &r) {
  return r && PyBytes_Check(r.p) ? std::string(PyBytes_AS_STRING(r.p), PyBytes_GET_SIZE(r.p)) : r ? "not text" : "error " + r.err;
}
static bool isInt(const Ref &r, unsigned long long v) {
  if (!r || !PyLong_Check(r.p))
    return false;
  unsigned long long got = PyLong_AsUnsignedLongLong(r.p);
  if (PyErr_Occurred()) {
    PyErr_Clear();
    return false;
  }
  return got == v;
}
static bool sameFloat(PyObject *o, float v) {
  if (!PyFloat_Check(o))
    return false;
  double d = PyFloat_AS_DOUBLE(o);
  return std::isnan(v) ? std::isnan(d) : d == double(v) && std::signbit(d) == std::signbit(v);
}
static bool isTuple(PyObject *o, std::vector<float> v) {
  if (!PyTuple_Check(o) || size_t(PyTuple_GET_SIZE(o)) != v.size())
    return false;
  for (size_t i = 0; i < v.size(); i++)
    if (!sameFloat(PyTuple_GET_ITEM(o, i), v[i]))
      return false;
  return true;
}
static std::vector<float> comps(const Vector4A16 &v) { return {v.X, v.Y, v.Z, v.W}; }
static bool isRows(PyObject *o, std::vector<Vector4A16> rows) {
  if (!PyTuple_Check(o) || size_t(PyTuple_GET_SIZE(o)) != rows.size())
    return false;
  for (size_t i = 0; i < rows.size(); i++)
    if (!isTuple(PyTuple_GET_ITEM(o, i), comps(rows[i])))
      return false;
  return true;
}
static std::string show(PyObject *o) {
  PyObject *s = o ? PyObject_Repr(o) : nullptr;
  std::string r = s ? PyUnicode_AsUTF8(s) : "nothing";
  Py_XDECREF(s);
  PyErr_Clear();
  return r;
}

static float num(Rng &r) {
  switch (r.below(8)) {
  case 0: return -0.f;
  case 1: return INFINITY;
  case 2: return NAN;
  case 3: return 1e-42f;
  case 4: return -3.4e38f;
  default: return r.uniform(-100, 100);
  }
}
static Vector4A16 vec(Rng &r) { return {num(r), num(r), num(r), num(r)}; }
static esMatrix44 mat(Rng &r) {
  esMatrix44 m;
  m.r1() = vec(r), m.r2() = vec(r), m.r3() = vec(r), m.r4() = vec(r);
  return m;
}
static uni::RTSValue rtsv(Rng &r) {
  uni::RTSValue v;
  v.translation = vec(r), v.rotation = vec(r), v.scale = vec(r);
  return v;
}
static bool isMat(PyObject *o, const esMatrix44 &m) { return isRows(o, {m.r1(), m.r2(), m.r3(), m.r4()}); }
static bool isRts(PyObject *o, const uni::RTSValue &v) { return isRows(o, {v.translation, v.rotation, v.scale}); }

// ---------------------------------------------------------------- generic objects behind the bindings
static long gAlive; // owned elements
struct Counted {
  bool on;
  Counted(bool o = false) : on(o) { gAlive += on; }
  Counted(const Counted &o) : on(o.on) { gAlive += on; }
  ~Counted() { gAlive -= on; }
};
static std::string anyName(Rng &r) {
  std::string s = r.chance(1, 6) ? "" : r.chance(1, 3) ? r.bytes(r.len(12, 3000)) : r.text(1 + r.len(12, 300));
  return s;
}
struct HBone : uni::Bone {
  Counted counted;
  int type = 0;
  bool offered = true;
  uni::RTSValue rts;
  esMatrix44 mtx;
  const uni::Bone *parent = nullptr;
  size_t index = 0;
  std::string name;
  HBone(bool count = false) : counted(count) {}
  uni::TransformType TMType() const override { return uni::TransformType(type); }
  void GetTM(uni::RTSValue &o) const override {
    if (offered) o = rts; else uni::Bone::GetTM(o);
  }
  void GetTM(esMatrix44 &o) const override {
    if (offered) o = mtx; else uni::Bone::GetTM(o);
  }
  const uni::Bone *Parent() const override { return parent; }
  size_t Index() const override { return index; }
  std::string Name() const override { return name; }
};
// A list whose elements are views of its storage or new ones, and which is lent or given away.
template <class I, class T> struct HList : uni::List<I> {
  Counted counted;
  std::shared_ptr<std::vector<std::shared_ptr<T>>> items;
  bool fresh = false;
  HList(bool count = false) : counted(count) {}
  size_t Size() const override { return items->size(); }
  uni::Element<const I> At(size_t i) const override {
    const T &t = *items->at(i);
    if (!fresh)
      return {&t, false};
    T *n = new T(t);
    n->counted.on = true, gAlive++;
    if (t.counted.on) gAlive--;
    return uni::Element<const I>(n);
  }
  uni::Element<const uni::List<I>> lend(bool give) const {
    if (!give)
      return {this, false};
    auto *n = new HList(true);
    n->items = items, n->fresh = fresh;
    return uni::Element<const uni::List<I>>(n);
  }
};
using HBones = HList<uni::Bone, HBone>;
struct HSkel : uni::Skeleton {
  Counted counted;
  HBones bones;
  bool give = false;
  std::string name;
  uni::SkeletonBonesConst Bones() const override { return bones.lend(give); }
  std::string Name() const override { return name; }
};
struct HTrack : uni::MotionTrack {
  Counted counted;
  int type = 0;
  bool offered = true;
  size_t bone = 0;
  uint64 salt = 0;
  TrackType_e TrackType() const override { return TrackType_e(type); }
  size_t BoneIndex() const override { return bone; }
  Rng at(float t) const {
    uint32 b;
    memcpy(&b, &t, 4);
    return Rng(salt * 0x9e3779b97f4a7c15ull + b);
  }
  bool moody = false; // has no value at some times
  bool lacks(float t) const { return moody && at(t + 1).chance(1, 6); }
  void mood(float t) const {
    if (lacks(t)) throw std::range_error("no value at that time");
  }
  void GetValue(uni::RTSValue &o, float t) const override {
    if (!offered) return uni::MotionTrack::GetValue(o, t);
    mood(t);
    Rng r = at(t);
    o = rtsv(r);
  }
  void GetValue(esMatrix44 &o, float t) const override {
    if (!offered) return uni::MotionTrack::GetValue(o, t);
    mood(t);
    Rng r = at(t);
    o = mat(r);
  }
  void GetValue(Vector4A16 &o, float t) const override {
    if (!offered) return uni::MotionTrack::GetValue(o, t);
    mood(t);
    Rng r = at(t);
    o = vec(r);
  }
  void GetValue(float &o, float t) const override {
    if (!offered) return uni::MotionTrack::GetValue(o, t);
    mood(t);
    Rng r = at(t);
    o = num(r);
  }
};
using HTracks = HList<uni::MotionTrack, HTrack>;
struct HMotion : uni::Motion {
  Counted counted;
  std::string name;
  float duration = 0;
  int type = 0;
  bool settable = true, give = false;
  mutable uint32 rate = 0;
  HTracks tracks;
  std::string Name() const override { return name; }
  void FrameRate(uint32 v) const override {
    if (!settable) uni::Motion::FrameRate(v);
    rate = v;
  }
  uint32 FrameRate() const override { return rate; }
  float Duration() const override { return duration; }
  uni::MotionTracksConst Tracks() const override { return tracks.lend(give); }
  MotionType_e MotionType() const override { return MotionType_e(type); }
};

// Runs work and checks that it leaves no object of the bindings, no owned element and no lost or surplus None behind.
template <class F> static void conservedOnce(const char *what, F work) {
  size_t objects = living();
  long alive = gAlive;
  Py_ssize_t none = Py_REFCNT(gNone);
  work();
  CHECK(!PyErr_Occurred(), "error-left", "%s leaves an error pending", what);
  PyErr_Clear();
  size_t left = living();
  if (left != objects) {
    std::string which;
    for (auto t : gTypes)
      if (size_t n = livingOf(t)) which += fmt(" %s:%zu", t->tp_name, n);
    CHECK(false, "objects", "%s: %zu objects of the bindings before, %zu after:%s", what, objects, left, which.c_str());
  }
  CHECK(gAlive == alive, "elements", "%s: %ld owned elements before, %ld after", what, alive, gAlive);
  CHECK(Py_REFCNT(gNone) == none, "none", "%s: None counted %zd times before, %zd after", what, none, Py_REFCNT(gNone));
  event("conserved");
}

// Now and then the work is repeated: it may not leave a block more behind each time.
template <class F> static void conserved(Rng &rng, const char *what, F work) {
  const bool again = rng.chance(1, 6);
  const Rng start = rng;
  conservedOnce(what, work);
  if (!again)
    return;
  PyGC_Collect(), PyType_ClearCache();
  size_t before = gLive->size(), first = before, grown = 0;
  for (int k = 0; k < 6; k++) {
    rng = start;
    work();
    PyGC_Collect(), PyType_ClearCache();
    size_t now = gLive->size();
    grown += now > before;
    before = now;
  }
  CHECK(grown < 6, "blocks", "%s: each time it is done it leaves blocks behind, %zu in 6 times", what, before - first);
  event("repeated");
}

// The elements of a list object however it is asked for them, in order; judged by what one does.
template <class F> static void listed(Rng &r, PyObject *l, size_t n, const char *what, F judge) {
  Py_ssize_t before = Py_REFCNT(l);
  CHECK(PyObject_Size(l) == Py_ssize_t(n), "length", "%s: length is %zd for %zu", what, PyObject_Size(l), n);
  for (int k = 0; k < 4 && n; k++) {
    size_t i = r.below(n);
    Ref x = item(l, number(i));
    CHECK(bool(x), "item", "%s: item %zu of %zu gives %s", what, i, n, x.err.c_str());
    if (x) judge(i, x);
    event("items");
  }
  for (long long bad : {(long long)n, -1ll, -(long long)n - 1, (long long)n + 1 + (long long)r.below(1000), 1ll << 40,
                        (1ll << 16) + (long long)r.below(n + 1), (1ll << 32) + (long long)r.below(n + 1), (1ll << 8) * (1 + (long long)n), LLONG_MIN, LLONG_MAX})
    if (r.chance(1, 3)) {
      Ref x = item(l, number(bad));
      if (bad == -1 && x) // counting from the end would be fine as well
        continue;
      CHECK(x.err == "IndexError" || x.err == "OverflowError", "outside", "%s: item %lld of %zu gives %s %s", what, bad, n, show(x.p).c_str(), x.err.c_str());
      event("outside");
    }
  for (auto o : {"Nothing", "Bad"})
    if (r.chance(1, 4)) {
      Ref x = item(l, help(o));
      CHECK(x.err == "TypeError" || x.err == "KeyError", "not-index", "%s: item of %s gives %s %s", what, o, show(x.p).c_str(), x.err.c_str());
      event("not-indices");
    }
  const int walks = 1 + r.below(3);
  for (int k = 0; k < walks; k++) {
    Ref it(PyObject_GetIter(l), "iter");
    CHECK(bool(it), "iter", "%s: cannot be walked: %s", what, it.err.c_str());
    if (!it) break;
    size_t stop = r.chance(1, 4) ? r.below(n + 1) : n + 1, i = 0;
    for (; i < stop; i++) {
      PyObject *p = PyIter_Next(it.p);
      if (!p) break;
      Ref x;
      x.p = p;
      CHECK(i < n, "walk", "%s: more than %zu elements", what, n);
      if (i >= n) break;
      judge(i, x);
    }
    if (PyErr_Occurred()) {
      CHECK(false, "walk", "%s: walking ends with an error", what);
      PyErr_Clear();
    }
    if (stop > n)
      { CHECK(i == n, "walk", "%s: %zu of %zu elements", what, i, n); event("walks"); }
    else
      event("stopped-walks");
    if (stop > n && r.chance(1, 2)) {
      Ref again;
      again.p = PyIter_Next(it.p);
      CHECK(!again && !PyErr_Occurred(), "walk", "%s: goes on after its end", what);
    }
  }
  if (r.chance(1, 3)) {
    Ref all(PySequence_List(l), "list");
    CHECK(all && PyList_GET_SIZE(all.p) == Py_ssize_t(n), "as-list", "%s: as a list: %s", what, all.err.c_str());
    for (size_t i = 0; all && i < n && i < size_t(PyList_GET_SIZE(all.p)); i++) {
      Ref x;
      x.p = PyList_GET_ITEM(all.p, i);
      Py_INCREF(x.p);
      judge(i, x);
    }
    event("as-lists");
  }
  CHECK(Py_REFCNT(l) == before, "list-count", "%s: held %zd times before, %zd after", what, before, Py_REFCNT(l));
}

// attributes cannot be made up, deleted or set where nothing can be set
static void attributes(Rng &r, PyObject *o, std::vector<const char *> names, std::vector<const char *> settable) {
  static const char *unknown[] = {"nam", "Name", "names", "", "parents", "index_", "frame", "values"};
  if (r.chance(1, 3)) {
    const char *u = unknown[r.below(8)];
    Ref x = attr(o, u);
    CHECK(x.err == "AttributeError", "unknown", "attribute %s gives %s %s", u, show(x.p).c_str(), x.err.c_str());
    event("unknown");
  }
  for (auto n : names) {
    bool can = false;
    for (auto s : settable)
      can |= !strcmp(s, n);
    if (r.chance(3, 4))
      continue;
    Ref v = can ? r.chance(1, 2) ? help(r.chance(1, 2) ? "Nothing" : "Bad") : Ref() : number(r.below(10));
    bool del = !v.p;
    int res = PyObject_SetAttrString(o, n, v.p);
    bool err = PyErr_Occurred();
    PyErr_Clear();
    CHECK(res == -1 && err, "refused", "%s %s is %s", del ? "deleting" : "setting", n, res ? "refused without an error" : err ? "done with an error" : "done");
    event("refused");
  }
}

static void oneBone(Rng &r, const HBone &b, PyObject *o, int depth = 0) {
  Py_ssize_t before = Py_REFCNT(o);
  CHECK(Py_TYPE(o) == UniPy::Bone::GetType(), "type", "a bone is a %s", Py_TYPE(o)->tp_name);
  if (Py_TYPE(o) != UniPy::Bone::GetType())
    return;
  if (r.chance(2, 3)) {
    std::string got = bytesOf(attr(o, "name"));
    CHECK(got == b.name, "bone-name", "bone %s is named %s", esc(b.name).c_str(), esc(got).c_str());
  }
  if (r.chance(2, 3))
    CHECK(isInt(attr(o, "index"), b.index), "bone-index", "bone %zu has index %s", b.index, show(attr(o, "index").p).c_str());
  if (r.chance(2, 3))
    CHECK(isInt(attr(o, "tm_type"), b.type), "tm-type", "kind %d is %s", b.type, show(attr(o, "tm_type").p).c_str());
  if (r.chance(2, 3)) {
    Ref t = attr(o, "transform");
    if (!b.offered && b.type < 2) {
      CHECK(!t, "not-offered", "a transform that is not offered is %s", show(t.p).c_str());
      event("not-offered");
    } else if (b.type == uni::TMTYPE_RTS)
      { CHECK(t && isRts(t.p, b.rts), "transform", "parts are %s", show(t.p).c_str()); event("rts"); }
    else if (b.type == uni::TMTYPE_MATRIX)
      { CHECK(t && isMat(t.p, b.mtx), "transform", "matrix is %s", show(t.p).c_str()); event("matrices"); }
    else
      { CHECK(t.p == gNone, "transform", "an unknown kind gives %s", show(t.p).c_str()); event("unknown-kinds"); }
  }
  if (r.chance(2, 3)) {
    Ref p = attr(o, "parent");
    if (!b.parent)
      { CHECK(p.p == gNone, "parent", "no parent is %s", show(p.p).c_str()); event("roots"); }
    else {
      CHECK(bool(p), "parent", "the parent is %s", p.err.c_str());
      if (p && depth < 3) oneBone(r, *static_cast<const HBone *>(b.parent), p.p, depth + 1);
      event("parents");
    }
  }
  attributes(r, o, {"name", "index", "tm_type", "transform", "parent"}, {});
  CHECK(Py_REFCNT(o) == before, "bone-count", "a bone held %zd times is held %zd times", before, Py_REFCNT(o));
  event("bones");
}

MON_SECTION(skeletons, 120, 3000) {
  Rng &r = c.rng;
  start();
  conserved(r, "skeletons", [&] {
    HList<uni::Skeleton, HSkel> skels;
    skels.items = std::make_shared<std::vector<std::shared_ptr<HSkel>>>();
    skels.fresh = r.chance(1, 3);
    for (size_t k = 0, n = r.len(3, 20); k < n; k++) {
      auto s = std::make_shared<HSkel>();
      s->name = anyName(r), s->give = r.chance(1, 2);
      s->bones.items = std::make_shared<std::vector<std::shared_ptr<HBone>>>();
      s->bones.fresh = r.chance(1, 3);
      for (size_t i = 0, m = r.len(8, 60); i < m; i++) {
        auto b = std::make_shared<HBone>();
        b->type = r.chance(1, 12) ? 2 + r.below(5) : r.below(2), b->offered = !r.chance(1, 10);
        b->rts = rtsv(r), b->mtx = mat(r), b->index = r.edgy(63), b->name = anyName(r);
        b->parent = i && r.chance(2, 3) ? (*s->bones.items)[r.below(i)].get() : nullptr;
        s->bones.items->push_back(b);
      }
      skels.items->push_back(s);
      distinct(hashBytes(s->name.data(), s->name.size()) + s->bones.items->size());
    }
    auto one = [&](const HSkel &s, PyObject *o) {
      Py_ssize_t before = Py_REFCNT(o);
      std::string got = bytesOf(attr(o, "name"));
      CHECK(got == s.name, "skeleton-name", "skeleton %s is named %s", esc(s.name).c_str(), esc(got).c_str());
      Ref bones = attr(o, "bones");
      CHECK(bool(bones), "bones", "bones are %s", bones.err.c_str());
      if (bones)
        listed(r, bones.p, s.bones.items->size(), "bones", [&](size_t i, Ref &x) { oneBone(r, *(*s.bones.items)[i], x.p); });
      attributes(r, o, {"name", "bones"}, {});
      CHECK(Py_REFCNT(o) == before, "skeleton-count", "a skeleton held %zd times is held %zd times", before, Py_REFCNT(o));
      event("skeletons");
    };
    Ref list(UniPy::Skeleton::Create(skels.lend(r.chance(1, 2))), "skeletons");
    listed(r, list.p, skels.items->size(), "skeletons", [&](size_t i, Ref &x) { one(*(*skels.items)[i], x.p); });
    for (auto &s : *skels.items)
      if (r.chance(1, 2)) {
        Ref o(reinterpret_cast<PyObject *>(UniPy::Skeleton::Create(uni::Element<const uni::Skeleton>(s.get(), false))), "skeleton");
        one(*s, o.p);
      }
    // bones compare by what they are
    std::vector<const HBone *> all;
    for (auto &s : *skels.items)
      for (auto &b : *s->bones.items)
        all.push_back(b.get());
    for (int k = 0; k < 10 && !all.empty(); k++) {
      const HBone *a = all[r.below(all.size())], *b = r.chance(1, 3) ? a : all[r.below(all.size())];
      HBone other(*b);
      if (r.chance(1, 3)) other.name = a->name;
      if (r.chance(1, 3)) other.index = a->index;
      UniPy::Bone *x = reinterpret_cast<UniPy::Bone *>(PyType_GenericAlloc(UniPy::Bone::GetType(), 0)),
                  *y = reinterpret_cast<UniPy::Bone *>(PyType_GenericAlloc(UniPy::Bone::GetType(), 0));
      x->item = {a, false}, y->item = {&other, false};
      bool same = a->name == other.name && a->index == other.index;
      CHECK((UniPy::Bone::Compare(x, y) == 0) == same && (UniPy::Bone::Compare(y, x) == 0) == same, "compare", "%s %zu and %s %zu compare %d",
            esc(a->name).c_str(), a->index, esc(other.name).c_str(), other.index, UniPy::Bone::Compare(x, y));
      CHECK(UniPy::Bone::Compare(x, x) == 0, "compare", "a bone differs from itself");
      event(same ? "same" : "different");
      Py_DECREF(x), Py_DECREF(y);
    }
  });
}

static void oneTrack(Rng &r, const HTrack &t, PyObject *o) {
  Py_ssize_t before = Py_REFCNT(o);
  CHECK(Py_TYPE(o) == UniPy::MotionTrack::GetType(), "type", "a track is a %s", Py_TYPE(o)->tp_name);
  if (Py_TYPE(o) != UniPy::MotionTrack::GetType())
    return;
  CHECK(isInt(attr(o, "track_type"), t.type), "track-type", "track kind %d is %s", t.type, show(attr(o, "track_type").p).c_str());
  CHECK(isInt(attr(o, "bone_index"), t.bone), "track-bone", "bone %zu is %s", t.bone, show(attr(o, "bone_index").p).c_str());
  size_t n = r.len(5, 100), bad = n && r.chance(1, 5) ? r.below(n) : n;
  std::vector<float> times;
  Ref list(PyList_New(0), "list");
  for (size_t i = 0; i < n; i++) {
    Ref v;
    double d = 0;
    if (i == bad)
      v = help(r.chance(1, 2) ? "Nothing" : "Bad");
    else if (r.chance(1, 4))
      d = r.range(-1000, 1000), v.p = PyLong_FromDouble(d);
    else if (r.chance(1, 10))
      d = 0.5, v = help("Half");
    else
      d = r.uniform(-50, 50), v.p = PyFloat_FromDouble(d);
    times.push_back(float(d));
    PyList_Append(list.p, v.p);
  }
  Ref got(PyObject_CallMethod(o, "get_values", "O", list.p), "get_values");
  if (bad < n) {
    CHECK(got.err == "TypeError" || got.err == "KeyError", "bad-times", "times with something else give %s %s", show(got.p).c_str(), got.err.c_str());
    event("bad-times");
  } else if (t.type > 5) {
    CHECK(got.p == gNone, "values", "an unknown kind gives %s", show(got.p).c_str());
    event("unknown-tracks");
  } else if (!t.offered && n) {
    CHECK(!got, "values-not-offered", "values that are not offered are %s", show(got.p).c_str());
    event("not-offered");
  } else if (std::any_of(times.begin(), times.end(), [&](float x) { return t.lacks(x); })) {
    CHECK(!got && got.err != "SystemError", "values-missing", "a time without value gives %s %s", show(got.p).c_str(), got.err.c_str());
    event("no-values");
  } else {
    CHECK(got && PyList_Check(got.p) && size_t(PyList_GET_SIZE(got.p)) == n, "values", "%zu times give %s %s", n, show(got.p).c_str(), got.err.c_str());
    for (size_t i = 0; got && PyList_Check(got.p) && i < n && i < size_t(PyList_GET_SIZE(got.p)); i++) {
      PyObject *v = PyList_GET_ITEM(got.p, i);
      Rng q = t.at(times[i]);
      bool fine;
      switch (t.type) {
      case uni::MotionTrack::Matrix: fine = isMat(v, mat(q)); break;
      case uni::MotionTrack::PositionRotationScale: fine = isRts(v, rtsv(q)); break;
      case uni::MotionTrack::SingleFloat: fine = sameFloat(v, num(q)); break;
      default: fine = isTuple(v, comps(vec(q)));
      }
      CHECK(fine, "value", "value %zu of kind %d at %g is %s", i, t.type, times[i], show(v).c_str());
      event("values");
    }
  }
  if (r.chance(1, 4)) {
    Ref x;
    switch (r.below(3)) {
    case 0: x = Ref(PyObject_CallMethod(o, "get_values", nullptr), "get_values"); break;
    case 1: x = Ref(PyObject_CallMethod(o, "get_values", "d", 0.5), "get_values"); break;
    default: x = Ref(PyObject_CallMethod(o, "get_values", "OO", list.p, list.p), "get_values");
    }
    CHECK(x.err == "TypeError", "bad-arguments", "wrong arguments give %s %s", show(x.p).c_str(), x.err.c_str());
    event("bad-arguments");
  }
  if (n && r.chance(1, 6)) {
    // times that empty their list while they are read
    Ref evil = help("Evil");
    PyObject_SetAttrString(evil.p, "list", list.p);
    PyObject *old = PyList_GET_ITEM(list.p, size_t(r.below(n)));
    for (size_t i = 0; i < n; i++)
      if (PyList_GET_ITEM(list.p, i) == old) {
        Py_INCREF(evil.p);
        PyList_SetItem(list.p, i, evil.p);
        break;
      }
    Ref x(PyObject_CallMethod(o, "get_values", "O", list.p), "get_values");
    PyObject_SetAttrString(evil.p, "list", gNone);
    event("changing-times");
  }
  CHECK(Py_REFCNT(list.p) == 1, "times-count", "the times are held %zd times", Py_REFCNT(list.p));
  attributes(r, o, {"track_type", "bone_index"}, {});
  CHECK(Py_REFCNT(o) == before, "track-count", "a track held %zd times is held %zd times", before, Py_REFCNT(o));
  event("tracks");
}

MON_SECTION(motions, 120, 3000) {
  Rng &r = c.rng;
  start();
  conserved(r, "motions", [&] {
    HList<uni::Motion, HMotion> motions;
    motions.items = std::make_shared<std::vector<std::shared_ptr<HMotion>>>();
    motions.fresh = r.chance(1, 3);
    for (size_t k = 0, n = r.len(3, 20); k < n; k++) {
      auto m = std::make_shared<HMotion>();
      m->name = anyName(r), m->give = r.chance(1, 2), m->duration = num(r), m->type = r.below(4), m->rate = r.edgy(32), m->settable = r.chance(3, 4);
      m->tracks.items = std::make_shared<std::vector<std::shared_ptr<HTrack>>>();
      m->tracks.fresh = r.chance(1, 3);
      for (size_t i = 0, t = r.len(6, 40); i < t; i++) {
        auto x = std::make_shared<HTrack>();
        x->type = r.chance(1, 12) ? 6 + r.below(5) : r.below(6), x->offered = !r.chance(1, 10), x->moody = r.chance(1, 6), x->bone = r.edgy(63), x->salt = r.u64();
        m->tracks.items->push_back(x);
      }
      motions.items->push_back(m);
      distinct(hashBytes(m->name.data(), m->name.size()) + m->rate);
    }
    auto one = [&](const HMotion &m, PyObject *o) {
      Py_ssize_t before = Py_REFCNT(o);
      std::string got = bytesOf(attr(o, "name"));
      CHECK(got == m.name, "motion-name", "motion %s is named %s", esc(m.name).c_str(), esc(got).c_str());
      Ref d = attr(o, "duration");
      CHECK(d && sameFloat(d.p, m.duration), "duration", "%g is %s", m.duration, show(d.p).c_str());
      CHECK(isInt(attr(o, "motion_type"), m.type), "motion-type", "kind %d is %s", m.type, show(attr(o, "motion_type").p).c_str());
      uint32 rate = m.rate;
      CHECK(isInt(attr(o, "framerate"), rate), "framerate", "%u is %s", rate, show(attr(o, "framerate").p).c_str());
      Ref tracks = attr(o, "tracks");
      CHECK(bool(tracks), "tracks", "tracks are %s", tracks.err.c_str());
      if (tracks)
        listed(r, tracks.p, m.tracks.items->size(), "tracks", [&](size_t i, Ref &x) { oneTrack(r, *(*m.tracks.items)[i], x.p); });
      attributes(r, o, {"name", "duration", "motion_type", "framerate", "tracks"}, {"framerate"});
      CHECK(isInt(attr(o, "framerate"), rate), "framerate-kept", "refused rates change %u to %s", rate, show(attr(o, "framerate").p).c_str());
      CHECK(Py_REFCNT(o) == before, "motion-count", "a motion held %zd times is held %zd times", before, Py_REFCNT(o));
      event("motions");
    };
    Ref list(UniPy::Motion::Create(motions.lend(r.chance(1, 2))), "motions");
    listed(r, list.p, motions.items->size(), "motions", [&](size_t i, Ref &x) { one(*(*motions.items)[i], x.p); });
    for (auto &m : *motions.items) {
      Ref o(reinterpret_cast<PyObject *>(UniPy::Motion::Create(uni::Element<const uni::Motion>(m.get(), false))), "motion");
      if (r.chance(1, 2))
        one(*m, o.p);
      const long long v = r.chance(1, 4) ? (r.chance(1, 2) ? -1 : 1) * (long long)r.edgy(63) : r.edgy(32);
      const bool fits = v >= 0 && v <= 0xffffffffll, done = m->settable && fits;
      uint32 old = m->rate;
      int res = PyObject_SetAttrString(o.p, "framerate", number(v).p);
      bool err = PyErr_Occurred();
      PyErr_Clear();
      CHECK((res == 0) == !err, "value-or-error", "setting the rate gives %d and %s error", res, err ? "an" : "no");
      CHECK((res == 0) == done, "set-rate", "setting rate %lld that %s be set gives %d", v, m->settable ? "can" : "cannot", res);
      CHECK(m->rate == (done ? v : old), "set-rate", "rate %u set to %lld is %u", old, v, m->rate);
      event(!fits ? "wrong-rates" : m->settable ? "rates" : "fixed-rates");
    }
  });
}

// A named value and a position for each item of an enumeration, and errors for all others
static void oneEnum(Rng &r, PyTypeObject *t, const std::vector<std::pair<std::string, uint64>> &items) {
  Ref type;
  type.p = PyObject_GetAttrString(gModule, t->tp_name);
  PyErr_Clear();
  CHECK(type.p == reinterpret_cast<PyObject *>(t), "enum-type", "%s is not in the module", t->tp_name);
  if (!type)
    return;
  Ref o(PyObject_CallNoArgs(type.p), "enumeration");
  CHECK(bool(o), "enum", "%s cannot be made: %s", t->tp_name, o.err.c_str());
  if (!o)
    return;
  CHECK(PyObject_Size(o.p) == Py_ssize_t(items.size()), "enum-size", "%s has %zd items of %zu", t->tp_name, PyObject_Size(o.p), items.size());
  for (size_t i = 0; i < items.size(); i++) {
    std::string got = bytesOf(item(o.p, number(i)));
    CHECK(got == items[i].first, "enum-name", "%s: item %zu is %s", t->tp_name, i, esc(got).c_str());
    Ref v = attr(o.p, items[i].first.c_str());
    CHECK(isInt(v, items[i].second), "enum-value", "%s: %s is %s %s", t->tp_name, items[i].first.c_str(), show(v.p).c_str(), v.err.c_str());
    event("enum-items");
  }
  for (int k = 0; k < 12; k++) {
    long long bad = r.chance(1, 2) ? items.size() + r.below(5) : r.chance(1, 2) ? (long long)r.u64() : -1 - (long long)r.below(5);
    if (!items.empty() && r.chance(1, 3))
      bad = (1ll << (8 << r.below(3))) + (long long)r.below(items.size());
    if (bad >= 0 && bad < (long long)items.size())
      continue;
    Ref x = item(o.p, number(bad));
    CHECK(x.err == "IndexError" || x.err == "OverflowError" || (bad < 0 && bad >= -(long long)items.size() && x), "enum-outside", "%s: item %lld gives %s %s",
          t->tp_name, bad, show(x.p).c_str(), x.err.c_str());
    std::string name = r.chance(1, 3) ? "" : r.text(r.len(8, 500));
    if (r.chance(1, 2) && !items.empty()) {
      name = items[r.below(items.size())].first;
      switch (r.below(4)) {
      case 0: name += "x"; break;
      case 1: name.pop_back(); break;
      case 2: name[0] ^= 32; break;
      default: name = " " + name;
      }
    }
    name = name.substr(0, name.find('\0'));
    for (auto &ch : name)
      if (ch & 0x80) ch &= 0x7f;
    bool known = false;
    for (auto &i : items)
      known |= i.first == name;
    if (known || name.find('\0') != name.npos)
      continue;
    Ref y = attr(o.p, name.c_str());
    CHECK(y.err == "AttributeError", "enum-unknown", "%s: %s gives %s %s", t->tp_name, esc(name).c_str(), show(y.p).c_str(), y.err.c_str());
    event("enum-unknown");
  }
  for (auto w : {"Nothing", "Bad"}) {
    Ref x = item(o.p, help(w));
    CHECK(!x, "enum-index", "%s: item of %s gives %s", t->tp_name, w, show(x.p).c_str());
  }
}

MON_SECTION(enums, 40, 400) {
  Rng &r = c.rng;
  start();
  conserved(r, "enumerations", [&] {
    oneEnum(r, UniPy::TrackTypeEnum::GetType(), {{"Position", uni::MotionTrack::Position}, {"Rotation", uni::MotionTrack::Rotation}, {"Scale", uni::MotionTrack::Scale}, {"Matrix", uni::MotionTrack::Matrix}, {"PositionRotationScale", uni::MotionTrack::PositionRotationScale}, {"SingleFloat", uni::MotionTrack::SingleFloat}});
    oneEnum(r, UniPy::MotionTypeEnum::GetType(), {{"Absolute", uni::Motion::Absolute}, {"Relative", uni::Motion::Relative}, {"Additive", uni::Motion::Additive}, {"Delta", uni::Motion::Delta}});
    oneEnum(r, UniPy::BoneTMTypeEnum::GetType(), {{"TMTYPE_RTS", uni::TMTYPE_RTS}, {"TMTYPE_MATRIX", uni::TMTYPE_MATRIX}});
    oneEnum(r, LevelPy::GetType(), {{"Low", 0}, {"Middle", 1}, {"High", 7}});
    oneEnum(r, KindPy::GetType(), {{"KA", 3}, {"KB", 4}, {"KC", 0x80}, {"KD", 0x81}, {"KE", 1}});
    oneEnum(r, OnePy::GetType(), {{"Only", 0}});
    oneEnum(r, WidePy::GetType(), {{"WA", 0x100000000ull}, {"WB", 12345678901ull}, {"WC", 0}, {"WD", 1}});
  });
  distinct(c.idx);
}

MON_SECTION(values, 200, 4000) {
  Rng &r = c.rng;
  start();
  conserved(r, "values", [&] {
    for (int k = 0; k < 20; k++) {
      Vector4A16 v = vec(r);
      Ref a(Py_BuildValue(Vector2(v.X, v.Y)), "vector"), b(Py_BuildValue(Vector(v.X, v.Y, v.Z)), "vector"), d(Py_BuildValue(Vector4(v.X, v.Y, v.Z, v.W)), "vector"),
          e(Py_BuildValue(v), "vector");
      CHECK(a && isTuple(a.p, {v.X, v.Y}), "vector2", "%s", show(a.p).c_str());
      CHECK(b && isTuple(b.p, {v.X, v.Y, v.Z}), "vector3", "%s", show(b.p).c_str());
      CHECK(d && isTuple(d.p, comps(v)), "vector4", "%s", show(d.p).c_str());
      CHECK(e && isTuple(e.p, comps(v)), "vector4simd", "%s", show(e.p).c_str());
      esMatrix44 m = mat(r);
      Ref f(Py_BuildValue(m), "matrix");
      CHECK(f && isMat(f.p, m), "matrix", "%s", show(f.p).c_str());
      uni::RTSValue q = rtsv(r);
      Ref g(Py_BuildValue(q), "parts");
      CHECK(g && isRts(g.p, q), "parts", "%s", show(g.p).c_str());
      event("tuples", 6);
      distinct(hashBytes(reinterpret_cast<char *>(&v), 16));
    }
  });
}

MON_MAIN
