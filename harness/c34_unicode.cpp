// C34: conversions of text.
#include "datas/tchar.hpp"
#include "datas/unicode.hpp"
#include "mon.hpp"
#include <atomic>
#include <memory>
#include <thread>
using namespace mon;

typedef std::vector<uint32_t> Points;
static std::string utf8(const Points &p) {
  std::string s;
  for (uint32_t c : p) {
    if (c < 0x80)
      s += char(c);
    else if (c < 0x800) {
      s += char(0xc0 | c >> 6);
      s += char(0x80 | (c & 63));
    } else if (c < 0x10000) {
      s += char(0xe0 | c >> 12);
      s += char(0x80 | (c >> 6 & 63));
      s += char(0x80 | (c & 63));
    } else {
      s += char(0xf0 | c >> 18);
      s += char(0x80 | (c >> 12 & 63));
      s += char(0x80 | (c >> 6 & 63));
      s += char(0x80 | (c & 63));
    }
  }
  return s;
}
template <class C> static std::basic_string<C> wide(const Points &p) {
  std::basic_string<C> s;
  for (uint32_t c : p)
    if (c >= 0x10000 && sizeof(C) == 2) {
      s += C(0xd800 + ((c - 0x10000) >> 10));
      s += C(0xdc00 + ((c - 0x10000) & 1023));
    } else
      s += C(c);
  return s;
}
static uint32_t point(Rng &r) {
  for (;;) {
    uint32_t c;
    switch (r.below(8)) {
    case 0: c = 1 + r.below(0x7f); break;
    case 1: c = 0x80 + r.below(0x780); break;
    case 2: c = 0x800 + r.below(0xf800); break;
    case 3: c = 0x10000 + r.below(0x100000); break;
    case 4: {
      static const uint32_t edges[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0xfffd, 0x10000, 0x10ffff, 0x1f600, 0xffff0, '\n', '"'};
      c = edges[r.below(17)];
      break;
    }
    default: c = 32 + r.below(95);
    }
    if (c < 0xd800 || c > 0xdfff)
      return c;
  }
}

template <class C> static std::basic_string<C> copy(const std::basic_string<C> &s) { // no spare room after the end
  std::basic_string<C> o(s.begin(), s.end());
  o.shrink_to_fit();
  return o;
}
template <class C> static void to(const Points &p, const char *what) {
  const std::string want = utf8(p);
  const auto w = copy(wide<C>(p));
  CHECK(es::ToUTF8(w) == want, "to utf8", "%s: a string of %zu points became %s, not %s", what, p.size(), esc(es::ToUTF8(w)).c_str(), esc(want).c_str());
  std::unique_ptr<C[]> z(new C[w.size() + 1]);
  std::copy(w.begin(), w.end(), z.get());
  z[w.size()] = 0;
  const C *in = z.get();
  CHECK(es::ToUTF8(in) == want, "pointer to utf8", "%s: text of %zu points became %s, not %s", what, p.size(), esc(es::ToUTF8(in)).c_str(), esc(want).c_str());
  event(what);
}

static void all(const Points &p) {
  to<wchar_t>(p, "wchar_t");
  to<char16_t>(p, "char16_t");
  to<char32_t>(p, "char32_t");
  const std::string narrow = copy(utf8(p));
  const std::wstring w = wide<wchar_t>(p);
  CHECK(es::ToUTF1632(narrow) == w, "to wide", "a string of %zu points became one of %zu characters", p.size(), es::ToUTF1632(narrow).size());
  std::unique_ptr<char[]> z(new char[narrow.size() + 1]);
  std::copy(narrow.begin(), narrow.end(), z.get());
  z[narrow.size()] = 0;
  CHECK(es::ToUTF1632(z.get()) == w, "pointer to wide", "text of %zu points became one of %zu characters", p.size(), es::ToUTF1632(z.get()).size());
  CHECK(es::ToUTF8(es::ToUTF1632(narrow)) == narrow, "round trip", "%s did not come back", esc(narrow).c_str());
  // the forms used for file names and messages
  CHECK(std::to_string(w) == narrow && std::to_string(w.c_str()) == narrow && std::to_string(narrow) == narrow && std::to_string(narrow.c_str()) == narrow, "to_string",
        "%s came out otherwise", esc(narrow).c_str());
  CHECK(std::to_wstring(narrow) == w && std::to_wstring(narrow.c_str()) == w && std::to_wstring(w) == w && std::to_wstring(w.c_str()) == w, "to_wstring",
        "%s came out otherwise", esc(narrow).c_str());
  CHECK(ToTSTRING(narrow) == narrow && ToTSTRING(w) == narrow && ToTSTRING(narrow.c_str()) == narrow && ToTSTRING(w.c_str()) == narrow, "TSTRING", "%s came out otherwise",
        esc(narrow).c_str());
  event("texts");
  for (auto c : p)
    event(c < 0x80 ? "one-byte" : c < 0x800 ? "two-byte" : c < 0x10000 ? "three-byte" : "four-byte");
}

MON_SECTION(texts, 2000, 200000) {
  Rng &r = c.rng;
  Points p;
  const unsigned n = r.chance(1, 10) ? 0 : r.chance(1, 20) ? r.len(3000, 70000) : r.below(20);
  for (unsigned k = 0; k < n; k++)
    p.push_back(point(r));
  if (!n)
    event("empty");
  if (c.idx < 3)
    sample(esc(utf8(p)));
  all(p);
  distinct(hashBytes(p.data(), p.size() * 4));
}
// every character by itself
MON_SECTION(points, 1088, 1088) {
  Points all1024;
  for (uint32_t k = 0; k < 1024; k++) {
    const uint32_t p = uint32_t(c.idx) * 1024 + k;
    if (!p || (p >= 0xd800 && p < 0xe000))
      continue;
    all1024.push_back(p);
    if (k % 64 == 0)
      all({p});
  }
  if (all1024.size())
    all(all1024);
  distinct(c.idx);
  event("blocks");
}

// in several threads at once
MON_SECTION(threads, 6, 300) {
  Rng &r = c.rng;
  std::vector<std::thread> ts;
  std::vector<std::string> wrong(2 + r.below(5));
  std::atomic<size_t> ready{0};
  for (size_t t = 0; t < wrong.size(); t++) {
    const uint64_t seed = r.u64();
    ts.emplace_back([&, t, seed] {
      Rng q(seed);
      ready++;
      while (ready < wrong.size())
        std::this_thread::yield();
      for (int k = 0; k < 200; k++) {
        Points p;
        for (unsigned n = 1 + q.below(60); n; n--)
          p.push_back(point(q));
        const std::string n = utf8(p);
        if (es::ToUTF1632(n) != wide<wchar_t>(p) || es::ToUTF8(wide<wchar_t>(p)) != n || es::ToUTF8(wide<char16_t>(p)) != n || es::ToUTF8(wide<char32_t>(p)) != n)
          wrong[t] = n;
      }
    });
  }
  for (auto &t : ts)
    t.join();
  for (auto &w : wrong)
    CHECK(w.empty(), "threads", "%s came out otherwise in a thread", esc(w).c_str());
  event("thread-texts", wrong.size() * 200);
}

// a character zero belongs to a string
MON_SECTION(zeros, 50, 1000) {
  Points p;
  for (unsigned n = 1 + c.rng.below(10); n; n--)
    p.push_back(c.rng.chance(1, 3) ? 0 : point(c.rng));
  CHECK(es::ToUTF8(wide<char16_t>(p)) == utf8(p) && es::ToUTF8(wide<char32_t>(p)) == utf8(p) && es::ToUTF1632(utf8(p)) == wide<wchar_t>(p), "zero",
        "a string with a zero was not converted whole");
  event("zeros");
}

template <class F> static bool refused(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
// malformed text
MON_SECTION(malformed, 500, 20000) {
  Rng &r = c.rng;
  Points p;
  for (unsigned n = r.below(8); n; n--)
    p.push_back(point(r));
  static const std::string bad8[] = {"\x80", "\xbf", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xff", "\xfe", "\xc3(", "\xe2(\xa1", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xc0\xaf"};
  // a character cut at the very end may also be left out
  const unsigned which = r.below(12);
  const std::string head = utf8(p), tail = r.chance(1, 2) && (which < 2 || which > 4) ? "" : "tail";
  const std::string bad = copy(head + bad8[which] + tail);
  CHECK(refused([&] { es::ToUTF1632(bad); }), "malformed", "malformed text %s was converted", esc(bad).c_str());
  CHECK(refused([&] { es::ToUTF1632(bad.c_str()); }), "malformed", "malformed text %s was converted", esc(bad).c_str());
  std::u16string w = wide<char16_t>(p);
  switch (r.below(3)) {
  case 0: w += char16_t(0xdc00 + r.below(1024)); break;
  case 1: w += char16_t(0xdc00 + r.below(1024)), w += u"x"; break;
  default: w += char16_t(0xd800 + r.below(1024)), w += u"x";
  }
  w = copy(w);
  CHECK(refused([&] { es::ToUTF8(w); }), "malformed 16", "text with half of a character was converted");
  std::u32string x = wide<char32_t>(p);
  x += char32_t(0x110000 + r.below(0x7fff0000));
  CHECK(refused([&] { es::ToUTF8(x); }), "malformed 32", "a character past the last one was converted");
  event("malformed", 3);
  // anything at all
  const auto raw = r.bytes(r.below(12));
  const std::string any = copy(std::string(raw.begin(), raw.end()));
  std::wstring got;
  if (!refused([&] { got = es::ToUTF1632(any); })) {
    std::string back;
    if (!refused([&] { back = es::ToUTF8(got); }))
      CHECK(any.size() - back.size() < 4 && !any.compare(0, back.size(), back), "accepted", "%s was accepted but came back as %s", esc(any).c_str(), esc(back).c_str());
    event("any-accepted");
  } else
    event("any-refused");
}

MON_SECTION(help, 50, 500) {
  static const char *yes[] = {"-h", "-?", "/?", "--help"};
  for (auto y : yes) {
    CHECK(IsHelp(y), "help", "%s is not taken for help", y);
    std::string s = y;
    const char extra = char(33 + c.rng.below(90));
    CHECK(!IsHelp(s + extra) && !IsHelp(extra + s) && !IsHelp(es::string_view(s.data(), s.size() - 1)), "help", "something like %s is taken for help", y);
  }
  CHECK(!IsHelp("") && !IsHelp("help"), "help", "something else is taken for help");
  event("help-words", 4);
}
MON_MAIN
