// C19: string views behave like standard strings.
#include "datas/string_view.hpp"
#include "mon.hpp"
#include <iterator>
#include <sstream>
using namespace mon;

template <class C> static std::basic_string<C> word(Rng &r, size_t maxLen) {
  std::basic_string<C> s(r.chance(1, 8) ? 0 : r.below(maxLen + 1), C('a'));
  size_t letters = 1 + r.below(4);
  bool wide = r.chance(1, 8);
  for (auto &c : s)
    c = wide ? C(r.u64()) : C('a' + r.below(letters));
  return s;
}
// characters in a block of exactly their size (no terminator)
template <class C> struct Block {
  C *p;
  size_t n;
  explicit Block(const std::basic_string<C> &s) : p(s.empty() ? new C[0] : new C[s.size()]), n(s.size()) {
    std::copy(s.begin(), s.end(), p);
  }
  ~Block() { delete[] p; }
  Block(const Block &) = delete;
};
static size_t anyPos(Rng &r, size_t n) {
  switch (r.below(8)) {
  case 0: return size_t(-1);
  case 1: return size_t(-2);
  case 2: return n;
  case 3: return n + 1;
  case 4: return size_t(r.edgy(64));
  case 5: return 0;
  default: return r.below(n + 1);
  }
}
static int sign(int v) { return v < 0 ? -1 : v > 0; }
template <class C> static std::string show(const std::basic_string<C> &s) {
  std::string o;
  for (auto c : s)
    o += c > 32 && c < 127 ? std::string(1, char(c)) : fmt("\\%x", unsigned(c));
  return "'" + o + "'";
}

template <class C> static void round(Case &c, const char *kind) {
  auto &r = c.rng;
  using S = std::basic_string<C>;
  using V = es::basic_string_view<C>;
  const S a = word<C>(r, r.chance(1, 10) ? 200 : 8);
  S b = word<C>(r, 4);
  if (r.chance(1, 4) && !a.empty())
    b = a.substr(r.below(a.size()), 1 + r.below(4));
  if (b.find(C(0)) != b.npos)
    b.clear();
  Block<C> ba(a), bb(b);
  V v(ba.p, ba.n), w(bb.p, bb.n);
  note(fmt("%s %s %s", kind, show(a).c_str(), show(b).c_str()));
  const C ch = b.empty() ? C('a') : b[0];
  const size_t cnt = r.below(b.size() + 1);
  const size_t p = anyPos(r, a.size());
  const std::string ctx = fmt("%s %s %s at %zd", kind, show(a).c_str(), show(b).c_str(), ssize_t(p));
#define F_(fn)                                                                                                         \
  CHECK(v.fn(w, p) == a.fn(b, p), #fn, #fn "(view) %s: %zd, not %zd", ctx.c_str(), ssize_t(v.fn(w, p)), ssize_t(a.fn(b, p))); \
  CHECK(v.fn(w) == a.fn(b), #fn, #fn "(view) %s without position: %zd, not %zd", ctx.c_str(), ssize_t(v.fn(w)), ssize_t(a.fn(b))); \
  CHECK(v.fn(ch, p) == a.fn(ch, p), #fn, #fn "(char) %s: %zd, not %zd", ctx.c_str(), ssize_t(v.fn(ch, p)), ssize_t(a.fn(ch, p))); \
  CHECK(v.fn(ch) == a.fn(ch), #fn, #fn "(char) %s without position: %zd, not %zd", ctx.c_str(), ssize_t(v.fn(ch)), ssize_t(a.fn(ch))); \
  CHECK(v.fn(bb.p, p, cnt) == a.fn(bb.p, p, cnt), #fn, #fn "(chars,count %zu) %s: %zd, not %zd", cnt, ctx.c_str(), ssize_t(v.fn(bb.p, p, cnt)), ssize_t(a.fn(bb.p, p, cnt))); \
  CHECK(v.fn(b.c_str(), p) == a.fn(b.c_str(), p), #fn, #fn "(chars) %s: %zd, not %zd", ctx.c_str(), ssize_t(v.fn(b.c_str(), p)), ssize_t(a.fn(b.c_str(), p)));
  switch (r.below(4)) {
  case 0:
    F_(find)
    F_(rfind)
    event("find");
    break;
  case 1:
    F_(find_first_of)
    F_(find_last_of)
    event("find-of");
    break;
  case 2:
    F_(find_first_not_of)
    F_(find_last_not_of)
    event("find-not-of");
    break;
  default: {
    // substr, compare, copy with exceptions
    const size_t n = anyPos(r, a.size()), p2 = anyPos(r, b.size()), n2 = anyPos(r, b.size());
    auto same = [&](const char *what, auto f, auto g) {
      bool tf = false, tg = false;
      decltype(g()) x{}, y{};
      try {
        x = f();
      } catch (const std::out_of_range &) {
        tf = true;
      }
      try {
        y = g();
      } catch (const std::out_of_range &) {
        tg = true;
      }
      CHECK(tf == tg, what, "%s %s count %zd: %s", what, ctx.c_str(), ssize_t(n), tf ? "refused" : "not refused");
      CHECK(tf != tg || x == y, what, "%s %s count %zd differs", what, ctx.c_str(), ssize_t(n));
      if (tf)
        event("out-of-range");
    };
    same("substr", [&] { V x = v.substr(p, n); return S(x.begin(), x.end()); }, [&] { return a.substr(p, n); });
    same("compare", [&] { return sign(v.compare(w)); }, [&] { return sign(a.compare(b)); });
    same("compare", [&] { return sign(v.compare(b.c_str())); }, [&] { return sign(a.compare(b.c_str())); });
    same("compare", [&] { return sign(v.compare(p, n, w)); }, [&] { return sign(a.compare(p, n, b)); });
    same("compare", [&] { return sign(v.compare(p, n, w, p2, n2)); }, [&] { return sign(a.compare(p, n, b, p2, n2)); });
    same("compare", [&] { return sign(v.compare(p, n, b.c_str())); }, [&] { return sign(a.compare(p, n, b.c_str())); });
    same("compare", [&] { return sign(v.compare(p, n, bb.p, cnt)); }, [&] { return sign(a.compare(p, n, bb.p, cnt)); });
    same("copy",
         [&] {
           size_t room = p > a.size() ? 0 : std::min(n, a.size() - p);
           Block<C> d(S(room, C('z')));
           size_t k = v.copy(d.p, n, p);
           return std::make_pair(k, S(d.p, d.n));
         },
         [&] {
           size_t room = p > a.size() ? 0 : std::min(n, a.size() - p);
           S d(room, C('z'));
           size_t k = a.copy(&d[0], n, p);
           return std::make_pair(k, d);
         });
    same("at", [&] { return v.at(p); }, [&] { return a.at(p); });
    event("parts");
  }
  }
#undef F_
  // relations, both directions, with every argument kind
#define R_(op)                                                                                                         \
  CHECK((v op w) == (a op b) && (v op b) == (a op b) && (a op w) == (a op b) && (v op b.c_str()) == (a op b) &&         \
            (b.c_str() op v) == (b op a),                                                                             \
        "relation", "%s " #op " %s", ctx.c_str(), kind);
  R_(==) R_(!=) R_(<) R_(>) R_(<=) R_(>=)
#undef R_
  // access and change
  CHECK(v.size() == a.size() && v.length() == a.size() && v.empty() == a.empty() && v.data() == ba.p && v.c_str() == ba.p, "size", "%s", ctx.c_str());
  CHECK(v.to_string() == a && S(v) == a && S(v.begin(), v.end()) == a && S(v.cbegin(), v.cend()) == a, "text", "%s", ctx.c_str());
  if (!a.empty()) {
    size_t i = r.below(a.size());
    CHECK(v[i] == a[i] && v.front() == a.front() && v.back() == a.back(), "char", "%s", ctx.c_str());
  }
  size_t k = r.below(a.size() + 1), m = r.below(a.size() - k + 1);
  V t = v;
  t.remove_prefix(k);
  t.remove_suffix(m);
  CHECK(t.to_string() == a.substr(k, a.size() - k - m), "remove", "%s prefix %zu suffix %zu", ctx.c_str(), k, m);
  V u(ba.p, ba.p + k);
  CHECK(u.to_string() == a.substr(0, k), "pointers", "%s end %zu", ctx.c_str(), k);
  V v2 = v;
  v2.resize(k);
  CHECK(v2 == u, "resize", "%s to %zu", ctx.c_str(), k);
  t.swap(v2);
  CHECK(t == u && v2.size() == a.size() - k - m, "swap", "%s", ctx.c_str());
  swap(t, v2);
  CHECK(v2 == u, "swap", "%s", ctx.c_str());
  CHECK(V(a) == a && V(a).size() == a.size() && V(b.c_str()).size() == b.size(), "make", "%s", ctx.c_str());
  distinct(hashBytes((const char *)a.data(), a.size() * sizeof(C), hashBytes((const char *)b.data(), b.size() * sizeof(C), p)));
}
MON_SECTION(narrow, 12000, 500000) { round<char>(c, "char"); }
MON_SECTION(wide, 4000, 100000) { round<wchar_t>(c, "wchar_t"); }
MON_SECTION(utf16, 4000, 100000) { round<char16_t>(c, "char16_t"); }
MON_SECTION(utf32, 2000, 50000) { round<char32_t>(c, "char32_t"); }
MON_SECTION(stream, 1000, 10000) {
  auto s = word<char>(c.rng, 20);
  std::stringstream o;
  o << es::string_view(s) << '|';
  CHECK(o.str() == s + "|", "stream", "streamed %s as %s", show(s).c_str(), show(o.str()).c_str());
  CHECK(es::string_view().empty() && es::MakeStringView("lit\0eral").size() == 8, "literal", "literal or empty view");
  event("streamed");
}
MON_MAIN
