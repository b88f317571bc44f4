// Shared monitor runtime: case scheduling, seeded generation, coverage
// accounting, violation recording.  Uses nothing from the code under test.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mon {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 0x1234567) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++)
    h = (h ^ c[i]) * 0x100000001b3ull;
  return mix(h ^ n);
}
inline uint64_t hashStr(const std::string &s) {
  return hashBytes(s.data(), s.size());
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t u64() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint32_t u32() { return uint32_t(u64() >> 32); }
  // [0, n)
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { // inclusive
    return lo + int64_t(below(uint64_t(hi - lo) + 1));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  // a length below `usual`, now and then a long one below `most`
  size_t len(size_t usual, size_t most) {
    return size_t(below(chance(1, 40) ? most : chance(1, 12) && usual * 16 < most ? usual * 16 : usual));
  }
  template <class C> auto pick(const C &c) -> decltype(c[0]) {
    return c[below(c.size())];
  }
  // biased towards power-of-two boundaries and all magnitudes
  uint64_t edgy(unsigned bits = 64) {
    uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
    switch (below(6)) {
    case 0:
      return below(4) & m;
    case 1:
      return (m - below(4)) & m;
    case 2: {
      uint64_t p = 1ull << below(bits);
      return (p + uint64_t(range(-2, 2))) & m;
    }
    case 3:
      return (u64() >> below(64)) & m;
    case 4:
      return (~(u64() >> below(64))) & m;
    default:
      return u64() & m;
    }
  }
  double unit() { return double(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  std::string bytes(size_t n) {
    std::string r(n, 0);
    for (auto &c : r)
      c = char(u64());
    return r;
  }
  std::string text(size_t n, const char *alpha = nullptr) {
    static const char *def =
        "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    if (!alpha)
      alpha = def;
    size_t al = strlen(alpha);
    std::string r(n, 0);
    for (auto &c : r)
      c = alpha[below(al)];
    return r;
  }
};

struct Status {
  char section[64];
  uint64_t idx;
  uint64_t progress;
  char note[3000];
};

struct Case {
  Rng rng;
  uint64_t idx;
  uint64_t total;
  bool thorough;
  Case(uint64_t s) : rng(s), idx(0), total(0), thorough(false) {}
};

using SectionFn = void (*)(Case &);
struct Section {
  const char *name;
  uint64_t quick, thorough;
  SectionFn fn;
};

struct State {
  uint64_t seed = 1;
  bool thorough = false;
  std::string out;
  std::string scratch;
  FILE *outf = nullptr;
  Status *st = nullptr;
  Status stLocal;
  uint64_t evals = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> events;
  std::map<std::string, std::vector<std::string>> samples;
  std::map<std::string, int> vcount;
  std::mutex m;
  std::string curSection;
};
inline State &S() {
  static State s;
  return s;
}
inline std::vector<Section> &sections() {
  static std::vector<Section> s;
  return s;
}
struct Reg {
  Reg(const char *n, uint64_t q, uint64_t t, SectionFn f) {
    sections().push_back({n, q, t, f});
  }
};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  va_list a, b;
  va_start(a, f);
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, a);
  std::string r(size_t(n) + 1, 0);
  vsnprintf(&r[0], size_t(n) + 1, f, b);
  r.pop_back();
  va_end(a);
  va_end(b);
  return r;
}
inline std::string hex(const void *p, size_t n, size_t cap = 64) {
  std::string r;
  for (size_t i = 0; i < n && i < cap; i++)
    r += fmt("%02x", ((const unsigned char *)p)[i]);
  if (n > cap)
    r += "..";
  return r;
}
inline std::string hex(const std::string &s, size_t cap = 64) {
  return hex(s.data(), s.size(), cap);
}
inline std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '\\')
      r += "\\\\";
    else if (c >= 32 && c < 127)
      r += char(c);
    else
      r += fmt("\\x%02x", c);
  }
  return r;
}
// One oracle decision.
inline void eval(uint64_t n = 1) { S().evals += n; }
// A distinct, non-trivial case.
inline void distinct(uint64_t h) {
  auto &s = S();
  if (s.distinct.size() < 400000)
    s.distinct.insert(mix(h ^ hashStr(s.curSection)));
}
inline void distinct(const std::string &k) { distinct(hashStr(k)); }
inline void event(const char *name, uint64_t n = 1) { S().events[name] += n; }
inline void sample(const std::string &s) {
  auto &v = S().samples[S().curSection];
  if (v.size() < 2)
    v.push_back(s);
}
inline void note(const std::string &s) {
  Status *st = S().st;
  size_t n = s.size() < sizeof(st->note) - 1 ? s.size() : sizeof(st->note) - 1;
  memcpy(st->note, s.data(), n);
  st->note[n] = 0;
}
inline void violation(const std::string &key, const std::string &detail) {
  auto &s = S();
  std::lock_guard<std::mutex> g(s.m);
  std::string k = s.curSection + "/" + key;
  int &c = s.vcount[k];
  if (c++ >= 3)
    return;
  fprintf(s.outf, "V\t%s\t%s:%llu\t%s\n", k.c_str(), s.curSection.c_str(),
          (unsigned long long)s.st->idx, esc(detail).substr(0, 1500).c_str());
  fflush(s.outf);
}
inline bool check(bool ok, const char *key, const std::string &detail) {
  eval();
  if (!ok)
    violation(key, detail);
  return ok;
}
// lazily formatted check
#define CHECK(cond, key, ...)                                                  \
  do {                                                                         \
    ::mon::eval();                                                             \
    if (!(cond))                                                               \
      ::mon::violation(key, ::mon::fmt(__VA_ARGS__));                          \
  } while (0)
#define CHECKR(cond, key, ...)                                                 \
  do {                                                                         \
    ::mon::eval();                                                             \
    if (!(cond)) {                                                             \
      ::mon::violation(key, ::mon::fmt(__VA_ARGS__));                          \
      return;                                                                  \
    }                                                                          \
  } while (0)

// A heap block of exactly n bytes: any access past it is seen by ASan.
struct Exact {
  char *p;
  size_t n;
  explicit Exact(size_t n_, char fill = 0) : p((char *)malloc(n_ ? n_ : 1)), n(n_) {
    memset(p, fill, n_);
  }
  explicit Exact(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) {
    memcpy(p, s.data(), n);
  }
  Exact(const Exact &) = delete;
  ~Exact() { free(p); }
  std::string str() const { return std::string(p, n); }
};

inline std::string readFile(const std::string &p) {
  std::string r;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f)
    return r;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0)
    r.append(buf, n);
  fclose(f);
  return r;
}
inline void writeFile(const std::string &p, const std::string &d) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f) {
    fprintf(stderr, "HARNESS: cannot write %s\n", p.c_str());
    _exit(3);
  }
  fwrite(d.data(), 1, d.size(), f);
  fclose(f);
}

inline std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c < 32 || c >= 127)
      r += fmt("\\u%04x", c);
    else
      r += char(c);
  }
  return r + "\"";
}

inline void finish() {
  auto &s = S();
  std::string j = "{\"evals\":" + std::to_string(s.evals) + ",\"events\":{";
  bool first = true;
  for (auto &e : s.events) {
    j += (first ? "" : ",") + jstr(e.first) + ":" + std::to_string(e.second);
    first = false;
  }
  j += "},\"samples\":{";
  first = true;
  for (auto &e : s.samples) {
    j += (first ? "" : ",") + jstr(e.first) + ":[";
    for (size_t i = 0; i < e.second.size(); i++)
      j += (i ? "," : "") + jstr(e.second[i]);
    j += "]";
    first = false;
  }
  j += "}}";
  fprintf(s.outf, "E\t%s\n", j.c_str());
  fflush(s.outf);
  FILE *f = fopen((s.out + ".distinct").c_str(), "wb");
  for (auto d : s.distinct)
    fwrite(&d, 8, 1, f);
  fclose(f);
}

inline int run(int argc, char **argv) {
  auto &s = S();
  uint64_t shard = 0, shards = 1, from = 0;
  std::string only, status;
  std::string fromSec;
  double scale = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed")
      s.seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--tier")
      s.thorough = v == "thorough";
    else if (a == "--out")
      s.out = v;
    else if (a == "--scratch")
      s.scratch = v;
    else if (a == "--status")
      status = v;
    else if (a == "--shard")
      sscanf(v.c_str(), "%lu/%lu", &shard, &shards);
    else if (a == "--only")
      only = v;
    else if (a == "--scale")
      scale = atof(v.c_str());
    else if (a == "--resume") { // section:idx to continue from
      size_t c = v.rfind(':');
      fromSec = v.substr(0, c);
      from = strtoull(v.c_str() + c + 1, 0, 10);
    }
  }
  s.outf = s.out.empty() ? stdout : fopen(s.out.c_str(), "ab");
  if (s.out.empty())
    s.out = "/tmp/mon.out";
  s.st = &s.stLocal;
  memset(s.st, 0, sizeof(Status));
  if (!status.empty()) {
    int fd = open(status.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Status)))
      return 3;
    s.st = (Status *)mmap(0, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED,
                          fd, 0);
  }
  std::string onlySec = only;
  int64_t onlyIdx = -1;
  if (only.rfind(':') != std::string::npos) {
    onlySec = only.substr(0, only.rfind(':'));
    onlyIdx = strtoll(only.c_str() + only.rfind(':') + 1, 0, 10);
  }
  bool skipping = !fromSec.empty();
  for (auto &sec : sections()) {
    if (!only.empty() && onlySec != sec.name)
      continue;
    uint64_t start = 0;
    if (skipping) {
      if (fromSec != sec.name)
        continue;
      skipping = false;
      start = from;
    }
    uint64_t n = s.thorough ? sec.thorough : sec.quick;
    if (sec.quick != sec.thorough) // equal counts enumerate something
      n = uint64_t(double(n) * scale);
    if (!s.thorough && sec.quick != sec.thorough && n > sec.thorough)
      n = sec.thorough;
    if (n == 0 && (s.thorough ? sec.thorough : sec.quick))
      n = 1;
    s.curSection = sec.name;
    snprintf(s.st->section, sizeof s.st->section, "%s", sec.name);
    for (uint64_t i = start; i < n; i++) {
      if (onlyIdx >= 0 ? int64_t(i) != onlyIdx : (i % shards != shard))
        continue;
      s.st->idx = i;
      s.st->progress++;
      s.st->note[0] = 0;
      Case c(mix(s.seed * 0x100000001b3ull ^ hashStr(sec.name)) + mix(i) * 3);
      c.idx = i;
      c.total = n;
      c.thorough = s.thorough;
      try {
        sec.fn(c);
        event(("cases:" + std::string(sec.name)).c_str());
      } catch (const std::exception &e) {
        violation("unexpected-exception", fmt("%s note=%s", e.what(), s.st->note));
      }
    }
  }
  snprintf(s.st->section, sizeof s.st->section, "%s", "<end>");
  finish();
  return 0;
}
} // namespace mon

#define MON_SECTION(name, q, t)                                                \
  static void monsec_##name(::mon::Case &c);                                   \
  static ::mon::Reg monreg_##name(#name, q, t, monsec_##name);                 \
  static void monsec_##name(::mon::Case &c)

#define MON_MAIN                                                               \
  int main(int argc, char **argv) { return ::mon::run(argc, argv); }
