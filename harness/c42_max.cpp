// C42: the helpers for 3ds Max plugins, over a stand-in for its SDK (max/*.h) that records every parameter.
#include "mon.hpp"
#include "datas/tchar.hpp"
#include <pugixml.hpp>
#include <typeinfo>
#include <algorithm>
#include <cmath>
#include <functional>
#include <list>
#include "MAXex/Maps.h"
#include "MAXex/NodeSuffix.h"
#include "datas/vectors.hpp"
using namespace mon;

struct Matrix3 {
  float v[3][3] = {};
  const float *operator[](int i) const { return v[i]; }
};
#include "MAXex/hk_preset.hpp"

static CoreInterface gCore;
CoreInterface *GetCOREInterface() { return &gCore; }
void *CoreInterface::CreateInstance(int kind, Class_ID id) {
  Animatable *a;
  void *p;
  if (kind == MATERIAL_CLASS_ID) {
    auto *m = new StdMat2;
    a = m, p = static_cast<void *>(m);
  } else {
    auto *m = new Texmap;
    a = m, p = static_cast<void *>(m);
  }
  a->made = id;
  made.emplace_back(a);
  return p;
}

// The composite map of the SDK, behind the interface the wrapper calls by position.
struct Layers : FPMixinInterface {
  MultiTex *tex;
  int count = 1, bad = 0;
  enum { rows = 32 };
  virtual int Count() { return count; }
  virtual void AddLayer() { clear(count), count++; }
  virtual void DeleteLayer(int i) {
    if (i < 0 || i >= count) { bad++; return; }
    take(i);
    count--;
  }
  virtual void DuplicateLayer(int i) {
    if (i < 0 || i >= count) { bad++; return; }
    auto l = row(i);
    count++;
    put(i + 1, l);
  }
  virtual void MoveLayer(int from, int to, bool before) {
    if (from < 0 || from >= count || to < 0 || to >= count) { bad++; return; }
    auto l = row(from);
    take(from);
    if (to > from) to--;
    put(before ? to : to + 1, l);
  }
  std::map<int, Value> row(int i) {
    std::map<int, Value> r;
    for (auto &v : tex->block.values)
      if (v.first.second == i) r[v.first.first] = v.second;
    return r;
  }
  void clear(int i) {
    for (auto it = tex->block.values.begin(); it != tex->block.values.end();)
      it->first.second == i ? it = tex->block.values.erase(it) : ++it;
  }
  void take(int i) {
    std::map<std::pair<int, int>, Value> n;
    for (auto &v : tex->block.values)
      if (v.first.second != i) n[{v.first.first, v.first.second - (v.first.second > i)}] = v.second;
    tex->block.values = n;
  }
  void put(int i, const std::map<int, Value> &l) {
    std::map<std::pair<int, int>, Value> n;
    for (auto &v : tex->block.values)
      n[{v.first.first, v.first.second + (v.first.second >= i)}] = v.second;
    for (auto &v : l)
      n[{v.first, i}] = v.second;
    tex->block.values = n;
  }
};
static Layers *gLayers;
Texmap *NewDefaultCompositeTex() {
  auto *m = new MultiTex;
  gCore.made.emplace_back(m);
  gLayers = new Layers;
  gLayers->tex = m;
  m->face = gLayers;
  return m;
}
struct Scene {
  Scene() { gCore.made.clear(); }
  ~Scene() {
    gCore.made.clear();
    delete gLayers;
    gLayers = nullptr;
  }
};

// ---------------------------------------------------------------- values of the types parameters have
static void fill(Rng &r, float &v) { v = r.uniform(-10, 10); }
static void fill(Rng &r, int &v) { v = int(r.u32()); }
static void fill(Rng &r, Color &v) { v.r = r.unit(), v.g = r.unit(), v.b = r.unit(); }
static void fill(Rng &r, Texmap *&v) {
  auto *t = new Texmap;
  gCore.made.emplace_back(t);
  v = t;
}
static void fill(Rng &r, ReferenceTarget *&v) {
  auto *t = new TextureOutput;
  static std::vector<std::unique_ptr<TextureOutput>> keep;
  if (keep.size() > 100) keep.clear();
  keep.emplace_back(t);
  v = t;
}
static void fill(Rng &r, const char *&v) {
  static const char *names[] = {"", "a", "Layer", "Layer 2", "layer"};
  v = names[r.below(5)];
}
template <class E> static void fillEnum(Rng &r, E &v, int n) { v = E(r.below(n)); }
static bool same(const Color &a, const Color &b) { return !memcmp(&a, &b, sizeof a); }
template <class T> static bool same(const T &a, const T &b) { return a == b; }

// One accessor: what is set comes back, in one parameter of its own, and nothing else is touched.
struct Acc {
  const char *name;
  std::function<void(Rng &, IParamBlock2 &)> set; // sets a random value and checks it
  std::function<bool()> check;                    // the value set last is still there
  int id = -1, row = -1;
};
struct Accs {
  std::vector<Acc> list;
  IParamBlock2 *block;
};
template <class T, class Set, class Get, class Fill>
static void addAcc(Accs &a, const char *name, Set set, Get get, Fill fillIt) {
  auto last = std::make_shared<T>();
  Acc c;
  c.name = name;
  c.set = [=](Rng &r, IParamBlock2 &) {
    fillIt(r, *last);
    set(*last);
  };
  c.check = [=] { return same(T(get()), *last); };
  a.list.push_back(c);
}
#define ACC(obj, type, fn) \
  addAcc<type>(accs, #fn, [&](type v) { obj.fn(v); }, [&]() -> type { return obj.fn(); }, [](Rng &r, type &v) { fill(r, v); });
#define ACCE(obj, cls, fn, n) \
  addAcc<cls::fn##_e>(accs, #fn, [&](cls::fn##_e v) { obj.fn(v); }, [&]() -> cls::fn##_e { return obj.fn(); }, \
                      [](Rng &r, cls::fn##_e &v) { fillEnum(r, v, n); });

static void accessors(Rng &r, Accs &accs, const char *what, int row) {
  IParamBlock2 &b = *accs.block;
  std::map<int, const char *> owner;
  for (auto &a : accs.list) {
    auto before = b.values;
    long sets = b.sets, wrong = b.wrong;
    a.set(r, b);
    CHECK(b.sets == sets + 1 && b.wrong == wrong, "one-set", "%s.%s sets %ld parameters", what, a.name, b.sets - sets);
    int changed = 0;
    for (auto &v : b.values) {
      auto f = before.find(v.first);
      if (f == before.end() || f->second != v.second)
        changed++, a.id = v.first.first, a.row = v.first.second;
    }
    CHECK(changed == 1, "one-changed", "%s.%s changes %d parameters", what, a.name, changed);
    CHECK(a.row == row, "row", "%s.%s goes to row %d instead of %d", what, a.name, a.row, row);
    auto o = owner.find(a.id);
    CHECK(o == owner.end(), "own-parameter", "%s.%s and %s share parameter %d", what, a.name, o == owner.end() ? "" : o->second, a.id);
    owner[a.id] = a.name;
    CHECK(a.check(), "comes-back", "%s.%s gives another value than was set", what, a.name);
    event("set");
  }
  for (int k = 0; k < 200; k++) {
    Acc &a = accs.list[r.below(accs.list.size())];
    if (r.chance(1, 2))
      a.set(r, b);
    long wrong = b.wrong, sets = b.sets;
    CHECK(a.check() && b.wrong == wrong && b.sets == sets, "comes-back", "%s.%s gives another value than was set before", what, a.name);
    event("got");
  }
}
static int idOf(const Accs &a, const char *name) {
  for (auto &x : a.list)
    if (!strcmp(x.name, name)) return x.id;
  return -1;
}

// The numbers of the parameters are those of the host.
static void numbers(const Accs &a, const char *what, std::initializer_list<std::pair<const char *, int>> want) {
  for (auto &w : want)
    CHECK(idOf(a, w.first) == w.second, "number", "%s.%s is parameter %d instead of %d", what, w.first, idOf(a, w.first), w.second);
}

MON_SECTION(wrappers, 60, 2000) {
  Rng &r = c.rng;
  Scene scene;
  switch (c.idx % 5) {
  case 0: {
    Mix m;
    Accs accs{{}, static_cast<Texmap *>(m)->GetParamBlock(0)};
    ACC(m, float, MixAmmount) ACC(m, float, Lower) ACC(m, float, Upper) ACC(m, int, UseCurve) ACC(m, Color, Color1) ACC(m, Color, Color2)
    ACC(m, Texmap *, Map1) ACC(m, Texmap *, Map2) ACC(m, Texmap *, Mask) ACC(m, int, Map1Active) ACC(m, int, Map2Active) ACC(m, int, MaskActive)
    ACC(m, ReferenceTarget *, Output)
    accessors(r, accs, "Mix", 0);
    numbers(accs, "Mix", {{"MixAmmount", 0}, {"Lower", 1}, {"Upper", 2}, {"UseCurve", 3}, {"Color1", 4}, {"Color2", 5}, {"Map1", 6}, {"Map2", 7},
                          {"Mask", 8}, {"Map1Active", 9}, {"Map2Active", 10}, {"MaskActive", 11}, {"Output", 12}});
    CHECK((static_cast<Texmap *>(m)->made == Class_ID(MIX_CLASS_ID, 0)), "class", "a mix is another class");
    Texmap *a, *b, *k;
    fill(r, a), fill(r, b), fill(r, k);
    float amount;
    fill(r, amount);
    Mix x(a, b, amount), y(a, b, k), z(a, b);
    CHECK(x.Map1() == a && x.Map2() == b && x.MixAmmount() == amount, "made-with", "maps %d %d amount %g for %g", x.Map1() == a, x.Map2() == b, x.MixAmmount(), amount);
    CHECK(y.Map1() == a && y.Map2() == b && y.Mask() == k, "made-with", "maps and mask");
    CHECK(z.Map1() == a && z.Map2() == b && z.MixAmmount() == 0.5f, "made-with", "maps alone");
    break;
  }
  case 1: {
    NormalBump m;
    Accs accs{{}, static_cast<Texmap *>(m)->GetParamBlock(0)};
    ACC(m, Texmap *, Normal) ACC(m, Texmap *, Bump) ACC(m, float, NormalAmmount) ACC(m, float, BumpAmmount) ACC(m, int, NormalActive)
    ACC(m, int, BumpActive) ACCE(m, NormalBump, Method, 4) ACC(m, int, FlipX) ACC(m, int, FlipY) ACC(m, int, SwapXY)
    accessors(r, accs, "NormalBump", 0);
    numbers(accs, "NormalBump", {{"NormalAmmount", 0}, {"BumpAmmount", 1}, {"Normal", 2}, {"Bump", 3}, {"NormalActive", 4}, {"BumpActive", 5},
                                 {"Method", 6}, {"FlipX", 7}, {"FlipY", 8}, {"SwapXY", 9}});
    CHECK((static_cast<Texmap *>(m)->made == GNORMAL_CLASS_ID), "class", "a normal map is another class");
    Texmap *a;
    fill(r, a);
    NormalBump x(a);
    CHECK(x.Normal() == a, "made-with", "normal map");
    break;
  }
  case 2: {
    RGBMultiply m;
    Accs accs{{}, static_cast<Texmap *>(m)->GetParamBlock(0)};
    ACC(m, Color, Color1) ACC(m, Color, Color2) ACC(m, Texmap *, Map1) ACC(m, Texmap *, Map2) ACC(m, int, Map1Active) ACC(m, int, Map2Active)
    ACCE(m, RGBMultiply, AlphaFrom, 3)
    accessors(r, accs, "RGBMultiply", 0);
    numbers(accs, "RGBMultiply", {{"Color1", 0}, {"Color2", 1}, {"Map1", 2}, {"Map2", 3}, {"Map1Active", 4}, {"Map2Active", 5}, {"AlphaFrom", 6}});
    CHECK((static_cast<Texmap *>(m)->made == Class_ID(RGBMULT_CLASS_ID, 0)), "class", "a multiplication is another class");
    Texmap *a, *b;
    fill(r, a), fill(r, b);
    RGBMultiply x(a, b);
    CHECK(x.Map1() == a && x.Map2() == b, "made-with", "maps");
    break;
  }
  case 3: {
    VertexColor m;
    Accs accs{{}, static_cast<Texmap *>(m)->GetParamBlock(0)};
    ACC(m, int, UVChannel) ACCE(m, VertexColor, OutputColor, 4)
    accessors(r, accs, "VertexColor", 0);
    numbers(accs, "VertexColor", {{"UVChannel", 0}, {"OutputColor", 1}});
    CHECK((static_cast<Texmap *>(m)->made == Class_ID(VCOL_CLASS_ID, 0)), "class", "a vertex colour is another class");
    break;
  }
  default: {
    StdMat2 own;
    const bool lent = r.chance(1, 2);
    PhysicalMaterial m = lent ? PhysicalMaterial(&own) : PhysicalMaterial();
    CHECK((!lent || static_cast<StdMat2 *>(m) == &own), "lent", "another material is used");
    Accs accs{{}, static_cast<StdMat2 *>(m)->GetParamBlock(0)};
    ACCE(m, PhysicalMaterial, MaterialMode, 2) ACCE(m, PhysicalMaterial, BRDFMode, 2) ACCE(m, PhysicalMaterial, AnisotropyMode, 2)
#define F(n) ACC(m, float, n)
#define I(n) ACC(m, int, n)
#define C(n) ACC(m, Color, n)
    F(BaseWeight) C(BaseColor) F(Reflectivity) F(Roughness) I(InvertRoughness) F(Metalness) C(ReflectionColor) F(DiffRoughness) F(BRDFLow)
    F(BRDFHigh) F(BRDFCurve) F(Anisotropy) F(AnisotropyAngle) I(AnisotropyChannel) F(Transparency) C(TransparencyColor) F(TransparencyDepth)
    F(TransparencyRoughness) I(InvertTransparencyRoughness) I(LockTransparencyRoughness) F(IOR) I(ThinWalled) F(Scattering) C(SSSColor)
    F(SSSDepth) F(SSSScale) C(SSSScatterColor) F(Emission) C(EmissionColor) F(EmissionLuminance) F(EmissionKelvin) F(Coating) C(CoatingColor)
    F(CoatingRoughness) I(InvertCoatingRoughness) F(CoatingAffectColor) F(CoatingAffectRoughness) F(CoatingIOR)
    I(BaseWeightMapActive) I(BaseColorMapActive) I(ReflectMapActive) I(ReflColorMapActive) I(RoughnessMapActive) I(MetalnessMapActive)
    I(DiffRoughnessMapActive) I(AnisotropyMapActive) I(AnisoAngleMapActive) I(TransparencyMapActive) I(TransColorMapActive)
    I(TransRoughnessMapActive) I(IORMapActive) I(ScatteringMActiveap) I(SSSColorMapActive) I(SSSScaleMapActive) I(EmissionMapActive)
    I(EmisionColorMapActive) I(CoatingMapActive) I(CoatingColorMapActive) I(CoatingRoughnessMapActive) I(BumpMapActive)
    I(CoatingBumpMapActive) I(DisplacementMapActive) I(CutoutMapActive) F(BumpMapAmmount) F(CoatingBumpMapAmmount) F(DisplacementMapAmmount)
    accessors(r, accs, "PhysicalMaterial", 0);
    if (!lent)
      CHECK((static_cast<StdMat2 *>(m)->made == PHYSIC_MAT_CLASSID), "class", "a material is another class");
    // the switches of the maps follow the order of the maps
    using P = PhysicalMaterial;
    static const struct { const char *name; int map; } active[] = {
        {"BaseWeightMapActive", P::BaseWeightMap}, {"BaseColorMapActive", P::BaseColorMap}, {"ReflectMapActive", P::ReflectMap},
        {"ReflColorMapActive", P::ReflColorMap}, {"RoughnessMapActive", P::RoughnessMap}, {"MetalnessMapActive", P::MetalnessMap},
        {"DiffRoughnessMapActive", P::DiffRoughnessMap}, {"AnisotropyMapActive", P::AnisotropyMap}, {"AnisoAngleMapActive", P::AnisoAngleMap},
        {"TransparencyMapActive", P::TransparencyMap}, {"TransColorMapActive", P::TransColorMap}, {"TransRoughnessMapActive", P::TransRoughnessMap},
        {"IORMapActive", P::IORMap}, {"ScatteringMActiveap", P::ScatteringMap}, {"SSSColorMapActive", P::SSSColorMap},
        {"SSSScaleMapActive", P::SSSScaleMap}, {"EmissionMapActive", P::EmissionMap}, {"EmisionColorMapActive", P::EmissionColorMap},
        {"CoatingMapActive", P::CoatingMap}, {"CoatingColorMapActive", P::CoatingColorMap}, {"CoatingRoughnessMapActive", P::CoatingRoughnessMap},
        {"BumpMapActive", P::BumpMap}, {"CoatingBumpMapActive", P::CoatingBumpMap}, {"DisplacementMapActive", P::DisplacementMap},
        {"CutoutMapActive", P::CutoutMap}};
    numbers(accs, "PhysicalMaterial", {{"BumpMapAmmount", 230}, {"CoatingBumpMapAmmount", 231}, {"DisplacementMapAmmount", 232}});
    int base = 150;
    for (auto &a : active)
      CHECK(idOf(accs, a.name) - base == a.map, "map-order", "%s is parameter %d for map %d", a.name, idOf(accs, a.name), a.map);
  }
  }
  distinct(c.idx * 31 + r.u32());
}

struct LayerModel {
  float opacity;
  int blend, enabled;
};
MON_SECTION(layers, 300, 10000) {
  Rng &r = c.rng;
  Scene scene;
  CompositeTex tex;
  std::vector<LayerModel> model;
  auto setLayer = [&](int i) {
    LayerModel &m = model[i];
    m = {float(r.uniform(0, 1)), int(r.below(25)), int(r.below(2))};
    auto l = tex.GetLayer(i);
    l.Opacity(m.opacity), l.BlendMode(CompositeTex::BlendMode_e(m.blend)), l.MapEnabled(m.enabled);
  };
  model.resize(1);
  setLayer(0);
  std::string ops;
  for (int k = 0, n = 1 + r.len(20, 100); k < n; k++) {
    int cnt = model.size(), i = r.below(cnt);
    switch (r.below(7)) {
    case 0: {
      if (cnt > 20) break;
      ops += "add ";
      auto l = tex.AddLayer();
      model.push_back({});
      LayerModel &m = model.back();
      m = {float(r.uniform(0, 1)), int(r.below(25)), int(r.below(2))};
      l.Opacity(m.opacity), l.BlendMode(CompositeTex::BlendMode_e(m.blend)), l.MapEnabled(m.enabled);
      event("added");
      break;
    }
    case 1:
      if (cnt == 1) {
        ops += "delete-last ";
        tex.DeleteLayer(0);
        event("last-kept");
        break;
      }
      if (r.chance(1, 5)) {
        ops += "delete-none ";
        tex.DeleteLayer(cnt + r.below(3));
        event("refused");
        break;
      }
      ops += fmt("delete%d ", i);
      tex.DeleteLayer(i);
      model.erase(model.begin() + i);
      event("deleted");
      break;
    case 2:
      if (cnt > 20) break;
      ops += fmt("copy%d ", i);
      tex.DuplicateLayer(i);
      model.insert(model.begin() + i + 1, LayerModel(model[i]));
      event("copied");
      break;
    case 3: {
      int to = r.below(cnt);
      bool before = r.chance(1, 2);
      if (to == i) break;
      ops += fmt("move%d-%d-%d ", i, to, before);
      tex.MoveLayer(i, to, before);
      LayerModel m = model[i];
      model.erase(model.begin() + i);
      int at = to - (to > i);
      model.insert(model.begin() + (before ? at : at + 1), m);
      event("moved");
      break;
    }
    case 4: {
      int size = r.chance(1, 6) ? -int(r.below(3)) : 1 + r.below(20);
      ops += fmt("resize%d ", size);
      tex.Resize(size);
      if (size < 1) { event("refused"); break; }
      event(size < cnt ? "shrunk" : size > cnt ? "grown" : "kept");
      model.resize(size);
      for (int j = cnt; j < size && j < tex.NumLayers(); j++)
        setLayer(j);
      break;
    }
    default:
      ops += fmt("set%d ", i);
      setLayer(i);
      event("layer-set");
    }
    note(ops);
    CHECK(gLayers->bad == 0, "outside", "a layer that does not exist is asked for: %s", ops.c_str());
    CHECK(tex.NumLayers() == int(model.size()), "layers", "%d layers instead of %zu after %s", tex.NumLayers(), model.size(), ops.c_str());
    if (tex.NumLayers() != int(model.size()))
      return;
    for (size_t j = 0; j < model.size(); j++) {
      auto l = tex.GetLayer(j);
      CHECK(l.Opacity() == model[j].opacity && l.BlendMode() == model[j].blend && l.MapEnabled() == model[j].enabled, "layer",
            "layer %zu of %zu is another one after %s", j, model.size(), ops.c_str());
    }
    CHECK(gLayers->tex->block.wrong == 0, "parameters", "parameters that were never set are asked for: %s", ops.c_str());
  }
  CompositeTex again(static_cast<MultiTex *>(tex));
  CHECK(again.NumLayers() == int(model.size()) && again.GetLayer(0).Opacity() == model[0].opacity, "again", "another composite");
  int row = r.below(model.size());
  auto l = again.GetLayer(row);
  gLayers->tex->block.values.clear();
  Accs accs{{}, gLayers->tex->GetParamBlock(0)};
  ACC(l, int, MapEnabled) ACC(l, int, MaskEnabled) ACCE(l, CompositeTex, BlendMode, 25) ACC(l, const char *, Name) ACC(l, float, Opacity)
  ACC(l, Texmap *, Map) ACC(l, Texmap *, Mask)
  accessors(r, accs, "Layer", row);
  numbers(accs, "Layer", {{"MapEnabled", 1}, {"MaskEnabled", 3}, {"BlendMode", 5}, {"Name", 6}, {"Opacity", 8}, {"Map", 9}, {"Mask", 10}});
  distinct(ops);
}

MON_SECTION(suffixes, 400, 20000) {
  Rng &r = c.rng;
  for (int k = 0; k < 20; k++) {
    INodeSuffixer s;
    std::vector<int> ids;
    bool n = false, sk = false, m = false, color = false, full = false;
    std::string ops;
    for (int i = 0, e = r.len(6, 60); i < e; i++)
      switch (r.below(6)) {
      case 0: s.UseNormals(), n = true, ops += "n"; break;
      case 1: s.UseSkin(), sk = true, ops += "s"; break;
      case 2: s.UseMorph(), m = true, ops += "m"; break;
      case 3:
        s.AddColor();
        if (!color) ids.push_back(0);
        color = true, ops += "c";
        break;
      case 4:
        if (full) break;
        s.AddFullColor();
        if (!color) ids.push_back(0);
        ids.push_back(-2);
        color = full = true, ops += "f";
        break;
      default: {
        int id = r.chance(1, 10) ? int(r.u32()) : r.chance(1, 5) ? -int(r.below(5)) : 1 + int(r.below(99));
        s.AddChannel(id);
        ids.push_back(id), ops += fmt("%d,", id);
      }
      }
    std::sort(ids.begin(), ids.end());
    std::string want = "[";
    if (!ids.empty()) {
      want += "U";
      for (int i : ids)
        want += std::to_string(i);
    }
    want += std::string(n ? "N" : "") + (sk ? "S" : "") + (m ? "M" : "") + "]";
    TSTRING name = r.text(r.len(20, 300));
    std::string plain = s.Generate(), with = s.Generate(&name), again = s.Generate();
    CHECK(plain == want && again == want, "suffix", "%s gives %s, then %s, instead of %s", ops.c_str(), esc(plain).c_str(), esc(again).c_str(), want.c_str());
    CHECK(with == "(" + std::string(name) + want + ")", "suffix-class", "%s with %s gives %s", ops.c_str(), esc(name).c_str(), esc(with).c_str());
    event(ids.empty() ? "no-channels" : full ? "full-colour" : color ? "colour" : "channels");
    distinct(ops);
  }
}

struct Preset {
  float objectScale;
  Matrix3 corMat;
};
MON_SECTION(presets, 300, 10000) {
  Rng &r = c.rng;
  pugi::xml_document doc;
  auto root = doc.append_child("data");
  struct Want { std::string name, scale, matrix; std::list<std::string> exts; };
  std::vector<Want> want;
  for (int k = 0, n = 1 + r.len(4, 20); k < n; k++) {
    Preset p;
    Want w;
    p.objectScale = r.chance(1, 8) ? -1.17549e-38f : r.chance(1, 4) ? float(r.range(-1000000, 1000000)) : r.uniform(-1000, 1000);
    char text[64];
    snprintf(text, sizeof text, "%.6g", p.objectScale);
    w.scale = text;
    int axes[3] = {0, 1, 2};
    for (int i = 2; i > 0; i--) std::swap(axes[i], axes[r.below(i + 1)]);
    for (int i = 0; i < 3; i++) {
      bool minus = r.chance(1, 2);
      float v = r.chance(1, 3) ? 0.25f + r.unit() : 1;
      if (r.chance(1, 12)) continue;
      p.corMat.v[i][axes[i]] = minus ? -v : v;
      w.matrix += minus ? "-" : "";
      w.matrix += "XYZ"[axes[i]];
    }
    CHECK(GetCorrectionMatrix(p.corMat) == w.matrix, "axes", "%s instead of %s", GetCorrectionMatrix(p.corMat).c_str(), w.matrix.c_str());
    for (int i = 0, m = r.len(4, 40); i < m; i++) {
      std::string e(1, 'a' + r.below(26));
      for (int j = r.below(8); j > 0; j--) e += "abcxyz019_"[r.below(10)];
      w.exts.push_back(e);
    }
    static const char *marks[] = {"<", "&", "\"", "'", ">", " ", "name", "Havok", "]]>"};
    for (int i = r.below(6); i > 0; i--) w.name += marks[r.below(9)];
    SaveHKPreset(p, w.name.c_str(), w.exts, root);
    want.push_back(w);
    distinct(w.scale + w.matrix);
  }
  struct Out : pugi::xml_writer {
    std::string s;
    void write(const void *d, size_t n) override { s.append(static_cast<const char *>(d), n); }
  } out;
  doc.save(out);
  pugi::xml_document read;
  CHECK(bool(read.load_buffer(out.s.data(), out.s.size())), "document", "%s", esc(out.s).c_str());
  size_t i = 0;
  for (auto n : read.child("data").children()) {
    CHECK(i < want.size(), "presets", "more than %zu presets", want.size());
    if (i >= want.size()) break;
    const Want &w = want[i++];
    CHECK(!strcmp(n.name(), "HavokPreset") && w.name == n.attribute("name").value(), "preset-name", "%s instead of %s", n.attribute("name").value(), w.name.c_str());
    CHECK(w.scale == n.child("scale").child_value(), "scale", "%s instead of %s", n.child("scale").child_value(), w.scale.c_str());
    CHECK(w.matrix == n.child("matrix").child_value(), "preset-axes", "%s instead of %s", n.child("matrix").child_value(), w.matrix.c_str());
    auto e = w.exts.begin();
    size_t cnt = 0;
    for (auto x : n.child("extensions").children()) {
      cnt++;
      CHECK(e != w.exts.end() && *e == x.name(), "extension", "%s instead of %s", x.name(), e == w.exts.end() ? "none" : e->c_str());
      if (e != w.exts.end()) ++e;
    }
    CHECK(cnt == w.exts.size(), "extensions", "%zu extensions of %zu", cnt, w.exts.size());
    event("presets"), event(w.exts.empty() ? "no-extensions" : "extensions");
  }
  CHECK(i == want.size(), "presets", "%zu presets of %zu", i, want.size());
}

MON_MAIN
