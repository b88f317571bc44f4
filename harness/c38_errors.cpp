// C38: errors name what went wrong; test checks decide their expressions as written.
#include "datas/supercore.hpp"
#include "datas/except.hpp"
#include "datas/master_printer.hpp"
#include "datas/unit_testing.hpp"
#include "mon.hpp"
#include <climits>
using namespace mon;

static std::string out;
static void sink(const char *s) { out += s; }

template <class E> static std::string what(const E &e) {
  // Caught as users catch them.
  try {
    throw e;
  } catch (const std::runtime_error &r) {
    if (!dynamic_cast<const E *>(&r))
      violation("type", "another kind of error");
    return r.what();
  }
}
static std::string magicText(const std::string &b) {
  std::string s = b.substr(0, b.find('\0')); // up to the first zero
  bool an = true;
  for (uint8_t ch : s)
    an = an && ((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'));
  if (an)
    return s;
  std::string o;
  for (uint8_t ch : s)
    o += fmt("0x%X ", ch);
  return o;
}
template <class T> static void magic(Rng &r) {
  char b[sizeof(T)];
  bool an = r.chance(1, 2);
  for (auto &ch : b) {
    ch = an ? "ABCxyz0189"[r.below(10)] : char(r.u32());
    if (r.chance(1, 12))
      ch = char(r.chance(1, 2) ? 0 : 0xff);
  }
  if (r.chance(1, 10))
    memset(b, 0xff, sizeof b);
  T v;
  memcpy(&v, b, sizeof v);
  std::string s(b, sizeof b);
  note(hex(s));
  distinct(s);
  std::string got = what(es::InvalidHeaderError(v)), want = "Invalid format: " + magicText(s);
  CHECK(got == want, "magic", "%s: '%s' want '%s'", hex(s).c_str(), got.c_str(), want.c_str());
  size_t n = r.below(sizeof(T) + 1);
  got = what(es::InvalidHeaderError(v, n));
  want = "Invalid format: " + magicText(s.substr(0, n));
  CHECK(got == want, "magic-size", "%s: '%s' want '%s'", hex(s).c_str(), got.c_str(), want.c_str());
  event(magicText(s) == s.substr(0, s.find('\0')) ? "readable-magics" : "hex-magics");
  if (sizeof(T) == 8 && s.find('\0') == s.npos)
    event("full-magics");
}

MON_SECTION(errors, 3000, 60000) {
  Rng &r = c.rng;
  for (int k = 0; k < 40; k++) {
    magic<uint8>(r), magic<uint16>(r), magic<uint32>(r), magic<uint64>(r), magic<int32>(r), magic<int64>(r), magic<int16>(r);
    std::string s = r.chance(1, 3) ? r.bytes(r.len(20, 3000)) : r.text(r.len(300, 30000));
    s = s.substr(0, s.find('\0'));
    Exact ex(s);
    es::string_view v(ex.p, s.size());
    CHECK(what(es::FileNotFoundError(v)) == "Couldn't open file: " + s, "not-found", "%s", esc(s).c_str());
    CHECK(what(es::FileInvalidAccessError(v)) == "Couldn't access file: " + s, "no-access", "%s", esc(s).c_str());
    CHECK(what(es::InvalidHeaderError(v)) == "Invalid format: " + s, "header", "%s", esc(s).c_str());
    size_t ver = r.edgy(64);
    CHECK(what(es::InvalidVersionError(ver)) == "Invalid version: " + std::to_string(ver), "version", "%zu", ver);
    event("names");
  }
  for (auto &s : {what(es::FileNotFoundError()), what(es::FileInvalidAccessError()), what(es::InvalidHeaderError()),
                  what(es::InvalidVersionError()), what(es::UnexpectedEOS())})
    CHECK(!s.empty(), "message", "no message");
}

// Every check as a function of values, in simple and compound forms.
static int eq(int a, int b) { TEST_EQUAL(a, b); return 0; }
static int ne(int a, int b) { TEST_NOT_EQUAL(a, b); return 0; }
static int gt(int a, int b) { TEST_GT(a, b); return 0; }
static int lt(int a, int b) { TEST_LT(a, b); return 0; }
static int ge(int a, int b) { TEST_GT_EQ(a, b); return 0; }
static int le(int a, int b) { TEST_LE_EQ(a, b); return 0; }
static int ck(int a, int b) { TEST_CHECK(a); return 0; }
static int nc(int a, int b) { TEST_NOT_CHECK(a); return 0; }
static int eqAnd(int a, int b) { TEST_EQUAL(a & b, b & a); TEST_EQUAL(a & 1, b & 1); return 0; }
static int neTernary(int a, int b) { TEST_NOT_EQUAL(a > 0 ? a : -1, b > 0 ? b : -1); return 0; }
static int gtOr(int a, int b) { TEST_GT(a | 1, b | 1); return 0; }
static int ltXor(int a, int b) { TEST_LT(a ^ 1, b ^ 1); return 0; }
static int geTernary(int a, int b) { TEST_GT_EQ(a > b ? a : b, b > 2 ? b : 2); return 0; }
static int leAnd(int a, int b) { TEST_LE_EQ(a & 3, b & 3); return 0; }
static int ckEq(int a, int b) { TEST_CHECK(a == b); return 0; }
static int ckLess(int a, int b) { TEST_CHECK(a < b); return 0; }
static int ckOr(int a, int b) { TEST_CHECK(a == 1 || b == 1); return 0; }
static int ckAnd(int a, int b) { TEST_CHECK(a & b); return 0; }
static int ncEq(int a, int b) { TEST_NOT_CHECK(a == b); return 0; }
static int ncOr(int a, int b) { TEST_NOT_CHECK(a == 1 || b == 1); return 0; }
static int text(int a, int b) { std::string x = "v" + std::to_string(a), y = "v" + std::to_string(b); TEST_EQUAL(x, y); return 0; }
struct NoPrint {
  int v;
  bool operator!=(const NoPrint &o) const { return v != o.v; }
};
static int opaque(int a, int b) { NoPrint x{a}, y{b}; TEST_EQUAL(x, y); return 0; }

struct Base : std::runtime_error { using runtime_error::runtime_error; };
struct Derived : Base { using Base::Base; };
static void thrower(int k) {
  switch (k) {
  case 1: throw Base("b");
  case 2: throw Derived("d");
  case 3: throw std::runtime_error("r");
  case 4: throw 5;
  }
}
static int th(int a, int) { TEST_THROW(Base, int x = a; x++; thrower(a);) return 0; }

static int ret(int v) { return v; }

// every check with every kind of operator on either side, as the tokens a test would write
#define FORM(n, X, Y) \
  static int feq##n(int a, int b) { TEST_EQUAL(X, Y); return 0; } \
  static int fne##n(int a, int b) { TEST_NOT_EQUAL(X, Y); return 0; } \
  static int fgt##n(int a, int b) { TEST_GT(X, Y); return 0; } \
  static int flt##n(int a, int b) { TEST_LT(X, Y); return 0; } \
  static int fge##n(int a, int b) { TEST_GT_EQ(X, Y); return 0; } \
  static int fle##n(int a, int b) { TEST_LE_EQ(X, Y); return 0; } \
  static int fck##n(int a, int b) { TEST_CHECK(X); return 0; } \
  static int fnc##n(int a, int b) { TEST_NOT_CHECK(X); return 0; } \
  static int left##n(int a, int b) { return (X); } \
  static int right##n(int a, int b) { return (Y); }
FORM(0, a | b, b | 1)
FORM(1, a ^ b, a)
FORM(2, a, a ^ b)
FORM(3, a & b, b)
FORM(4, b, a & 2)
FORM(5, a == b, b == 1)
FORM(6, a < b, b < 2)
FORM(7, a, b > 0)
FORM(8, a > 0 ? a : b, b)
FORM(9, b, a > 0 ? b : a)
FORM(10, a && b, a || b)
FORM(11, a || b, b)
FORM(12, a != b, a)
FORM(13, -a / 2, b / 2)
FORM(14, !a, b)
FORM(15, a, !b)
struct Form {
  int (*fn[8])(int, int), (*left)(int, int), (*right)(int, int);
  const char *x, *y;
};
#define FORMROW(n, X, Y) {{feq##n, fne##n, fgt##n, flt##n, fge##n, fle##n, fck##n, fnc##n}, left##n, right##n, #X, #Y},
static const Form formTable[] = {
    FORMROW(0, a | b, b | 1)
    FORMROW(1, a ^ b, a)
    FORMROW(2, a, a ^ b)
    FORMROW(3, a & b, b)
    FORMROW(4, b, a & 2)
    FORMROW(5, a == b, b == 1)
    FORMROW(6, a < b, b < 2)
    FORMROW(7, a, b > 0)
    FORMROW(8, a > 0 ? a : b, b)
    FORMROW(9, b, a > 0 ? b : a)
    FORMROW(10, a && b, a || b)
    FORMROW(11, a || b, b)
    FORMROW(12, a != b, a)
    FORMROW(13, -a / 2, b / 2)
    FORMROW(14, !a, b)
    FORMROW(15, a, !b)
};

MON_SECTION(forms, 1000, 20000) {
  static bool added = (printer.AddPrinterFunction(sink, false), true);
  (void)added;
  Rng &r = c.rng;
  static const char *const ops[] = {" != ", " == ", " <= ", " >= ", " < ", " > "}; // of the failure
  for (int k = 0; k < 100; k++) {
    const int a = int(r.range(-3, 4)), b = r.chance(1, 4) ? a : int(r.range(-3, 4));
    const unsigned kind = r.below(8);
    const Form &f = formTable[r.below(sizeof formTable / sizeof *formTable)];
    const int x = f.left(a, b), y = f.right(a, b);
    const bool holds[] = {x == y, x != y, x > y, x < y, x >= y, x <= y, x != 0, x == 0};
    out.clear();
    note(fmt("kind %u of %s and %s with %d and %d", kind, f.x, f.y, a, b));
    const int got = f.fn[kind](a, b);
    CHECK(got == !holds[kind], "form", "kind %u of %s and %s with %d and %d gives %d", kind, f.x, f.y, a, b, got);
    if (holds[kind])
      CHECK(out.empty(), "silent", "kind %u of %s and %s prints %s", kind, f.x, f.y, esc(out).c_str());
    else {
      CHECK(out.find(f.x) != out.npos && (kind > 5 || out.find(std::string(f.x) + ops[kind] + f.y) != out.npos), "expression", "kind %u of %s and %s: %s", kind, f.x, f.y, esc(out).c_str());
      const std::string vals = fmt(", %d%s%d", x, kind > 5 ? "" : ops[kind], y);
      // comparisons print as true and false or as numbers
      const bool numbers = !strpbrk(f.x, "=<>!&|") && !strpbrk(f.y, "=<>!&|");
      if (kind < 6 && numbers)
        CHECK(out.find(vals) != out.npos, "values", "kind %u of %s and %s with %d and %d: %s", kind, f.x, f.y, a, b, esc(out).c_str());
    }
    event("forms");
    distinct(size_t(kind) << 32 | (&f - formTable) << 16 | size_t(a + 8) << 8 | size_t(b + 8));
  }
}

MON_SECTION(checks, 3000, 60000) {
  static bool added = (printer.AddPrinterFunction(sink, false), true);
  (void)added;
  Rng &r = c.rng;
  struct T {
    const char *name;
    int (*fn)(int, int);
    bool (*want)(int, int); // passes
    const char *show;       // printed before the values
    const char *op;
  };
  static const T tests[] = {
      {"eq", eq, [](int a, int b) { return a == b; }, "a != b", " != "},
      {"ne", ne, [](int a, int b) { return a != b; }, "a == b", " == "},
      {"gt", gt, [](int a, int b) { return a > b; }, "a <= b", " <= "},
      {"lt", lt, [](int a, int b) { return a < b; }, "a >= b", " >= "},
      {"ge", ge, [](int a, int b) { return a >= b; }, "a < b", " < "},
      {"le", le, [](int a, int b) { return a <= b; }, "a > b", " > "},
      {"check", ck, [](int a, int) { return a != 0; }, "a", nullptr},
      {"not check", nc, [](int a, int) { return a == 0; }, "a", nullptr},
      {"eq and", eqAnd, [](int a, int b) { return (a & 1) == (b & 1); }, "a & 1 != b & 1", nullptr},
      {"ne ternary", neTernary, [](int a, int b) { return (a > 0 ? a : -1) != (b > 0 ? b : -1); }, "a > 0 ? a : -1 == b > 0 ? b : -1", nullptr},
      {"gt or", gtOr, [](int a, int b) { return (a | 1) > (b | 1); }, "a | 1 <= b | 1", nullptr},
      {"lt xor", ltXor, [](int a, int b) { return (a ^ 1) < (b ^ 1); }, "a ^ 1 >= b ^ 1", nullptr},
      {"ge ternary", geTernary, [](int a, int b) { return std::max(a, b) >= std::max(b, 2); }, nullptr, nullptr},
      {"le and", leAnd, [](int a, int b) { return (a & 3) <= (b & 3); }, nullptr, nullptr},
      {"check eq", ckEq, [](int a, int b) { return a == b; }, "a == b", nullptr},
      {"check less", ckLess, [](int a, int b) { return a < b; }, "a < b", nullptr},
      {"check or", ckOr, [](int a, int b) { return a == 1 || b == 1; }, "a == 1 || b == 1", nullptr},
      {"check and", ckAnd, [](int a, int b) { return (a & b) != 0; }, "a & b", nullptr},
      {"not check eq", ncEq, [](int a, int b) { return a != b; }, "a == b", nullptr},
      {"not check or", ncOr, [](int a, int b) { return a != 1 && b != 1; }, "a == 1 || b == 1", nullptr},
      {"text", text, [](int a, int b) { return a == b; }, "x != y, v", nullptr},
      {"opaque", opaque, [](int a, int b) { return a == b; }, "x != y", nullptr},
      {"throw", th, [](int a, int) { return a == 1 || a == 2; }, nullptr, nullptr},
  };
  for (int k = 0; k < 60; k++) {
    int a = int(r.range(-4, 6)), b = r.chance(1, 4) ? a : int(r.range(-4, 6));
    if (r.chance(1, 10))
      a = r.chance(1, 2) ? INT_MIN : INT_MAX;
    if (r.chance(1, 20))
      b = r.chance(1, 2) ? INT_MIN : INT_MAX;
    const T &t = tests[r.below(sizeof tests / sizeof *tests)];
    out.clear();
    note(fmt("%s(%d, %d)", t.name, a, b));
    int got = t.fn(a, b);
    bool want = t.want(a, b);
    CHECK(got == (want ? 0 : 1), "decision", "%s of %d and %d gives %d, it %s", t.name, a, b, got, want ? "holds" : "does not hold");
    if (want)
      CHECK(out.empty(), "silent", "%s of %d and %d prints %s", t.name, a, b, esc(out).c_str());
    else {
      CHECK(out.find(__FILE__) != out.npos, "file", "%s: %s", t.name, esc(out).c_str());
      if (t.show)
        CHECK(out.find(t.show) != out.npos, "expression", "%s: %s", t.name, esc(out).c_str());
      if (t.op) {
        std::string vals = ", " + std::to_string(a) + t.op + std::to_string(b);
        CHECK(out.find(vals) != out.npos, "values", "%s of %d and %d: %s", t.name, a, b, esc(out).c_str());
      }
      if (t.fn == text) {
        std::string vals = ", v" + std::to_string(a) + " != v" + std::to_string(b);
        CHECK(out.find(vals) != out.npos, "values", "%s of %d and %d: %s", t.name, a, b, esc(out).c_str());
      }
    }
    event(want ? "passing" : "failing");
    distinct(fmt("%s %d %d", t.name, a, b));
  }
  // Runs of several cases.
  for (int k = 0; k < 10; k++) {
    int v[6], fails = 0;
    for (int &x : v) {
      x = r.chance(1, 2) ? 0 : int(r.range(-2, 2));
      fails += x != 0;
    }
    int res = -9;
    out.clear();
    note(fmt("cases %d %d %d %d %d %d", v[0], v[1], v[2], v[3], v[4], v[5]));
    {
      TEST_CASES(res, TEST_FUNC(ret, v[0]), TEST_FUNC(ret, v[1]), TEST_FUNC(ret, v[2]), TEST_FUNC(ret, v[3]), TEST_FUNC(ret, v[4]),
                 TEST_FUNC(ret, v[5]));
    }
    CHECK((res != 0) == (fails != 0), "cases", "%d of 6 cases failed, result %d", fails, res);
    size_t named = 0;
    for (size_t p = 0; (p = out.find("Method ret failed!", p)) != out.npos; p++)
      named++;
    CHECK(named == size_t(fails), "cases-named", "%d failed, %s", fails, esc(out).c_str());
    CHECK(out.find(fmt("%d out of 6", 6 - fails)) != out.npos, "cases-report", "%d failed: %s", fails, esc(out).c_str());
    event(fails ? "failed-runs" : "passed-runs");
  }
}
MON_MAIN
