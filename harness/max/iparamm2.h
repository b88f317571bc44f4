// Stand-in for the 3ds Max SDK: just what the wrappers of MAXex use, recording what they do.
#pragma once
#include <cassert>
#include <cstddef>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

typedef char MCHAR;
struct Color {
  float r = 0, g = 0, b = 0;
};
struct Interval {
  bool infinite = false;
  void SetInfinite() { infinite = true; }
};
struct Class_ID {
  unsigned a, b;
  Class_ID(unsigned x = 0, unsigned y = 0) : a(x), b(y) {}
  bool operator==(const Class_ID &o) const { return a == o.a && b == o.b; }
};
struct Interface_ID : Class_ID {
  using Class_ID::Class_ID;
};
enum { TEXMAP_CLASS_ID = 1, MATERIAL_CLASS_ID = 2 };
enum { MIX_CLASS_ID = 0x230, RGBMULT_CLASS_ID = 0x290, VCOL_CLASS_ID = 0x934851 };

struct Value {
  std::string type, bytes;
  bool operator==(const Value &o) const { return type == o.type && bytes == o.bytes; }
  bool operator!=(const Value &o) const { return !(*this == o); }
};
template <class T> Value toValue(const T &v, const char *type = typeid(T).name()) {
  return {type, std::string(reinterpret_cast<const char *>(&v), sizeof v)};
}
struct IParamBlock2 {
  std::map<std::pair<int, int>, Value> values; // by parameter and row
  long sets = 0, gets = 0, wrong = 0;
  template <class T> void SetValue(int id, int time, T v, int row = 0) {
    sets++;
    wrong += time != 0;
    values[{id, row}] = toValue(v);
  }
  template <class T> void GetValue(int id, int time, T &v, Interval &valid, int row = 0) {
    gets++;
    wrong += time != 0 || !valid.infinite;
    auto f = values.find({id, row});
    v = T();
    if (f == values.end() || f->second.type != typeid(T).name())
      wrong++;
    else
      v = *reinterpret_cast<const T *>(f->second.bytes.data());
  }
};
struct ReferenceTarget {
  virtual ~ReferenceTarget() = default;
};
struct TextureOutput : ReferenceTarget {};
struct FPInterface {
  virtual ~FPInterface() = default;
};
struct FPMixinInterface : FPInterface {};
struct Animatable : ReferenceTarget {
  IParamBlock2 block;
  Class_ID made;
  FPInterface *face = nullptr;
  IParamBlock2 *GetParamBlock(int) { return &block; }
  FPInterface *GetInterface(Interface_ID) { return face; }
};
struct Texmap : Animatable {};
struct MultiTex : Texmap {};
struct StdMat2 : Animatable {};
struct CoreInterface {
  std::vector<std::unique_ptr<Animatable>> made;
  void *CreateInstance(int kind, Class_ID id);
};
CoreInterface *GetCOREInterface();
Texmap *NewDefaultCompositeTex();
