// Reference text form of reflected members.
#pragma once
#include "refl_fixture.hpp"
inline uint64 loadU(const char *p, size_t n) {
  uint64 v = 0;
  memcpy(&v, p, n);
  return v;
}
inline std::string textOfScalar(MK k, size_t size, const char *p) {
  uint64 u = loadU(p, size);
  switch (k) {
  case MK::Bool: return u ? "true" : "false";
  case MK::UInt: return mon::fmt("%llu", (unsigned long long)u);
  case MK::Int: {
    int64 s = size == 8 ? int64(u) : int64(u << (64 - size * 8)) >> (64 - size * 8);
    return mon::fmt("%lld", (long long)s);
  }
  default:
    return size == 4 ? mon::fmt("%.6g", double(*(const float *)p)) : mon::fmt("%.13g", *(const double *)p);
  }
}
inline std::string textOfElement(const Mem &m, const char *p, bool &known) {
  switch (m.kind) {
  case MK::Enum: {
    uint64 u = loadU(p, m.size);
    if (m.en->registered)
      for (auto &i : m.en->items)
        if (i.second == u)
          return i.first;
    return "";
  }
  case MK::Flags: {
    uint64 u = loadU(p, m.size);
    std::string s;
    for (size_t b = 0; b < m.size * 8; b++)
      if (u >> b & 1) {
        const char *nm = nullptr;
        for (auto &i : m.en->items)
          if (i.second == b)
            nm = i.first;
        if (!nm)
          known = false;
        else
          s += (s.empty() ? "" : " | ") + std::string(nm);
      }
    return s.empty() ? "NULL" : s;
  }
  case MK::Vec: {
    std::string s = "[";
    for (size_t i = 0; i < m.vn; i++)
      s += (i ? ", " : "") + textOfScalar(m.vkind, m.vsize, p + i * m.vsize);
    return s + "]";
  }
  case MK::Str: return *(const std::string *)p;
  case MK::CStr: {
    const char *s = *(const char *const *)p;
    return s ? s : "";
  }
  case MK::Class:
  case MK::Bits: return "SUBCLASS_TYPE";
  default: return textOfScalar(m.kind, m.size, p);
  }
}
inline std::string textOf(const Mem &m, const char *p, bool &known) {
  if (!m.n)
    return textOfElement(m, p, known);
  std::string s = "{";
  for (size_t i = 0; i < m.n; i++)
    s += (i ? ", " : "") + textOfElement(m, p + i * m.size, known);
  return s + "}";
}
