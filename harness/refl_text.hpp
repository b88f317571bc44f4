// Hostile and plausible text for reflected members.
#pragma once
#include "refl_fixture.hpp"
inline std::string genNumber(mon::Rng &r) {
  std::string s;
  if (r.chance(1, 4))
    s += std::string(r.below(4), r.chance(1, 2) ? ' ' : '\t');
  if (r.chance(1, 3))
    s += "-";
  else if (r.chance(1, 12))
    s += "+";
  switch (r.below(9)) {
  case 0: s += std::to_string(r.edgy(unsigned(1 + r.below(64)))); break;
  case 1: s += mon::fmt("0x%llx", (unsigned long long)r.edgy(unsigned(1 + r.below(64)))); break;
  case 2: s += r.text(1 + r.below(30), "0123456789"); break;
  case 3: s += mon::fmt("%g", r.uniform(-1000, 1000)); break;
  case 4: s += mon::fmt("%.*g%s%d", int(1 + r.below(9)), r.unit() * 10, r.chance(1, 2) ? "e" : "E", int(r.range(-400, 400))); break;
  case 5: s += std::to_string(r.below(300)); break;
  case 6: s += std::to_string(r.below(4)); break;
  case 7: s += "0x" + r.text(r.below(20), "0123456789abcdefABCDEF"); break;
  default: s += r.chance(1, 2) ? "inf" : "nan"; break;
  }
  if (r.chance(1, 4))
    s += r.chance(1, 2) ? std::string(1 + r.below(3), ' ') : r.text(1 + r.below(4), "dis.xe,-+ ");
  return s;
}
inline std::string genWord(mon::Rng &r) {
  static const char *w[] = {"true",  "false", "TRUE",  "False", "tr",    "tru",  "fals", "t",    "",      "NULL", "A0",
                            "A1",    "A2",    "B0",    "B2",    "C7",    "C8bcd", "D1",  "D2",   "F0",    "F1",   "F3",
                            "F5",    "F7",    "F8",    "F15",   "F31",   "F33",  "F63",  "U0",   "nope",  "A",    "A00",
                            "B",     "trueish", "falsey", "F", "f1", "null"};
  std::string s = w[r.below(sizeof w / sizeof *w)];
  if (r.chance(1, 5))
    s = std::string(r.below(3), ' ') + s;
  if (r.chance(1, 5))
    s += std::string(r.below(3), r.chance(1, 2) ? ' ' : '\t');
  return s;
}
inline std::string genFlags(mon::Rng &r) {
  std::string s;
  for (size_t i = r.below(5); i + 1 > 0; i--) {
    s += genWord(r);
    if (i == 0)
      break;
    s += r.chance(1, 3) ? "|" : " | ";
  }
  if (r.chance(1, 6))
    s += "|";
  return s;
}
inline std::string genScalar(mon::Rng &r) {
  switch (r.below(5)) {
  case 0: return genWord(r);
  case 1: return genFlags(r);
  case 2: return r.text(r.below(8), "tf ,|[]{}()\"-x0\t\n");
  default: return genNumber(r);
  }
}
inline std::string genArray(mon::Rng &r, int depth = 0) {
  static const char op[] = "[{(", cl[] = "]})";
  size_t b = r.below(3);
  std::string s;
  if (!r.chance(1, 12))
    s += op[b];
  size_t n = r.below(7);
  for (size_t i = 0; i < n; i++) {
    if (depth < 1 && r.chance(1, 3))
      s += genArray(r, depth + 1);
    else if (r.chance(1, 8))
      s += std::string(r.below(3), ' ');
    else if (r.chance(1, 12))
      s += "\"" + genWord(r) + (r.chance(1, 4) ? "" : "\"");
    else
      s += genScalar(r);
    if (i + 1 < n || r.chance(1, 3))
      s += r.chance(1, 2) ? ", " : ",";
  }
  if (r.chance(1, 6))
    s += std::string(r.below(3), ' ');
  if (!r.chance(1, 12))
    s += cl[r.chance(1, 12) ? r.below(3) : b];
  return s;
}
// Well shaped for the member more often than not.
inline std::string genElementFor(mon::Rng &r, const Mem &m) {
  switch (m.kind) {
  case MK::Bool: return r.chance(3, 4) ? (r.chance(1, 2) ? "true" : "false") : genWord(r);
  case MK::Enum: return r.chance(3, 4) ? std::string(m.en->items[r.below(m.en->items.size())].first) : genWord(r);
  case MK::Flags: return genFlags(r);
  case MK::Vec: {
    std::string s = "[";
    size_t n = r.chance(3, 4) ? m.vn : r.below(7);
    for (size_t i = 0; i < n; i++)
      s += (i ? ", " : "") + genNumber(r);
    return s + (r.chance(1, 8) ? ", ]" : "]");
  }
  case MK::Str: return r.text(r.below(50), "abc ,{}[]\"|<>&\\x");
  default: return genNumber(r);
  }
}
inline std::string genText(mon::Rng &r, const Mem *m) {
  if (!m || r.chance(1, 4))
    switch (r.below(4)) {
    case 0: return r.bytes(r.below(20));
    case 1: return genArray(r);
    default: return genScalar(r);
    }
  if (!m->n)
    return genElementFor(r, *m);
  std::string s = "{";
  size_t n = r.chance(3, 4) ? m->n : r.below(m->n + 5);
  for (size_t i = 0; i < n; i++)
    s += (i ? ", " : "") + (r.chance(1, 15) ? std::string() : genElementFor(r, *m));
  if (r.chance(1, 4))
    s += r.chance(1, 2) ? "," : ", ";
  return s + (r.chance(1, 4) ? "} " : "}");
}
