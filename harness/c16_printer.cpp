// C16: concurrent logging: whole messages, exactly once, in order, to every sink.
#include "datas/master_printer.hpp"
#include "mon.hpp"
#include <atomic>
#include <chrono>
#include <sstream>
#include <thread>
using namespace mon;

// Sinks record without any locking of their own.
static std::vector<std::string> gLog[3];
static int gDelay;
template <int N> static void sink(const char *s) {
  if (gDelay) {
    static unsigned n;
    if (++n % unsigned(gDelay) == 0)
      std::this_thread::sleep_for(std::chrono::microseconds(n % 7 * 10));
    else if (n % 3 == 0)
      std::this_thread::yield();
  }
  gLog[N].push_back(s);
}
static const bool COLORED[] = {true, false, true};
static void setup() {
  static bool once = [] {
    printer.AddPrinterFunction(sink<0>);
    printer.AddPrinterFunction(sink<1>, false);
    printer.AddPrinterFunction(sink<2>, true);
    printer.AddPrinterFunction(sink<0>, true); // known already
    printer.AddPrinterFunction(sink<1>);
    return true;
  }();
  (void)once;
}
// fails when told to; comes behind the others
struct SinkError {};
static int gFailIn = -1; // counts its calls down
static void failing(const char *) {
  if (gFailIn >= 0 && gFailIn-- == 0)
    throw SinkError();
}
enum Kind { MSG, WRN, ERR, INF };
static MPType mp(Kind k) { return k == WRN ? MPType::WRN : k == ERR ? MPType::ERR : k == INF ? MPType::INF : MPType::MSG; }
static const char *prefix(Kind k) { return k == WRN ? "WARNING: " : k == ERR ? "ERROR: " : ""; }
static const char *color(Kind k) { return k == WRN ? "38;2;255;255;0" : k == ERR ? "38;2;255;0;0" : ""; }

struct Msg {
  Kind kind;
  bool nl;
  std::string text;
};
// text of a sink without colour codes and the colour of each character
struct Seen {
  std::string text;
  std::vector<const std::string *> col;
  std::vector<std::string> cols;
  std::string last;
};
static bool flatten(int sinkId, Seen &o) {
  std::string all;
  for (auto &p : gLog[sinkId])
    all += p;
  std::string cur;
  o.cols.reserve(all.size() + 1);
  o.cols.push_back("");
  for (size_t i = 0; i < all.size(); i++) {
    if (all[i] == '\033') {
      size_t e = all.find('m', i);
      if (e == all.npos || all[i + 1] != '[' || !COLORED[sinkId])
        return false;
      cur = all.substr(i + 2, e - i - 2);
      if (cur == "0")
        cur = "";
      o.cols.push_back(cur);
      i = e;
      continue;
    }
    o.text += all[i];
    o.col.push_back(&o.cols.back());
  }
  o.last = cur;
  return true;
}

// random pieces, with what the standard stream makes of them
static void piece(Rng &r, std::ostream &ref, bool huge) {
  switch (r.below(9)) {
  case 0: { int v = int(r.edgy(32)); printer << v; ref << v; break; }
  case 1: { uint64_t v = r.edgy(64); printer << v; ref << v; break; }
  case 2: { double v = r.uniform(-1e3, 1e3); printer << v; ref << v; break; }
  case 3: { char v = char('a' + r.below(26)); printer << v; ref << v; break; }
  case 4: { bool v = r.chance(1, 2); printer << v; ref << v; break; }
  case 5: { std::string v = r.text(r.below(huge ? 3000 : 30)); printer << v; ref << v; break; }
  case 6: { std::string v = r.text(r.below(10)); printer << v.c_str(); ref << v.c_str(); break; }
  case 7: { float v = float(r.range(-100, 100)) / 8; printer << v; ref << v; break; }
  default: { short v = short(r.u64()); printer << v; ref << v; }
  }
}
// expect message m at p of s; thread ids collected in *id
static bool take(const Seen &s, size_t &p, const Msg &m, bool ids, bool colored, std::string *id, std::string &why) {
  if (ids) {
    if (s.text.compare(p, 9, "Thread[0x")) {
      why = "no thread id";
      return false;
    }
    size_t e = s.text.find("] ", p);
    if (e == s.text.npos || e == p + 9) {
      why = "no thread id";
      return false;
    }
    std::string h = s.text.substr(p + 9, e - p - 9);
    if (h.find_first_not_of("0123456789ABCDEF") != h.npos || (id && !id->empty() && *id != h)) {
      why = "thread id changed to " + h;
      return false;
    }
    if (id)
      *id = h;
    p = e + 2;
  }
  std::string want = prefix(m.kind) + m.text + (m.nl ? "\n" : "");
  if (s.text.compare(p, want.size(), want)) {
    size_t q = 0;
    while (p + q < s.text.size() && q < want.size() && s.text[p + q] == want[q])
      q++;
    why = "expected '" + esc(want.substr(q > 20 ? q - 20 : 0, 60)) + "', got '" + esc(s.text.substr(p + (q > 20 ? q - 20 : 0), 60)) + "'";
    return false;
  }
  for (size_t i = 0; i < want.size(); i++)
    if (*s.col[p + i] != (colored ? color(m.kind) : "")) {
      why = fmt("character %zu has colour '%s'", i, s.col[p + i]->c_str());
      return false;
    }
  p += want.size();
  return true;
}

MON_SECTION(single, 3000, 60000) {
  setup();
  gDelay = 0;
  auto &r = c.rng;
  for (auto &l : gLog)
    l.clear();
  bool ids = r.chance(1, 3);
  printer.PrintThreadID(ids);
  std::vector<Msg> ms;
  size_t nm = 1 + r.len(12, 200);
  std::string all;
  for (size_t i = 0; i < nm; i++) {
    Msg m{Kind(r.below(4)), r.chance(2, 3), ""};
    std::stringstream ref;
    bool huge = r.chance(1, 6);
    size_t at = r.below(4), np = r.below(8);
    if (r.chance(1, 2500)) {
      std::string v = r.text(60000 + r.below(150000));
      printer << v;
      ref << v;
      event("large-messages");
    }
    for (size_t k = 0; k < np; k++) {
      if (k == at && m.kind != MSG)
        printer << mp(m.kind);
      piece(r, ref, huge);
    }
    if (at >= np && m.kind != MSG)
      printer << mp(m.kind);
    m.text = ref.str();
    if (!m.nl && r.chance(1, 3)) {
      printer.FlushAll();
      event("flushed");
    } else
      printer >> (m.nl ? 1 : 0);
    ms.push_back(m);
    all += m.text;
  }
  printer.PrintThreadID(false);
  for (int s = 0; s < 3; s++) {
    Seen o;
    CHECKR(flatten(s, o), "escape", "sink %d got a broken or unwanted colour code", s);
    size_t p = 0;
    std::string id, why;
    for (size_t i = 0; i < nm; i++)
      CHECKR(take(o, p, ms[i], ids, COLORED[s], &id, why), "format", "sink %d message %zu: %s", s, i, why.c_str());
    CHECK(p == o.text.size(), "extra", "sink %d got '%s' too", s, esc(o.text.substr(p, 60)).c_str());
    CHECK(o.last.empty(), "color-left", "sink %d left in colour '%s'", s, o.last.c_str());
  }
  event("messages", nm);
  distinct(hashBytes(all.data(), all.size()));
}

MON_SECTION(nulltext, 300, 3000) {
  setup();
  gDelay = 0;
  auto &r = c.rng;
  for (size_t n = r.below(3); n; n--)
    printer << r.text(r.below(4000)) >> 1;
  printer << "before" << static_cast<const char *>(nullptr) << "after" >> 1;
  for (auto &l : gLog)
    l.clear();
  printer << 12 << " next" >> 1;
  for (int s = 0; s < 3; s++) {
    std::string t;
    for (auto &p : gLog[s])
      t += p;
    CHECK(t == "12 next\n", "after-null", "message after null text is '%s'", esc(t).c_str());
  }
  event("null-text");
}

// a sink that throws keeps nobody from the next messages
MON_SECTION(failing_sink, 1000, 20000) {
  setup();
  printer.AddPrinterFunction(failing, false); // colours would be set on all sinks, failing before others get the text
  gDelay = 0;
  auto &r = c.rng;
  for (auto &l : gLog)
    l.clear();
  std::vector<Msg> ms;
  for (size_t i = 0, n = 1 + r.len(12, 100); i < n; i++) {
    Msg m{Kind(r.below(4)), r.chance(2, 3), ""};
    std::stringstream ref;
    if (m.kind != MSG)
      printer << mp(m.kind);
    for (size_t k = r.below(5); k > 0; k--)
      piece(r, ref, r.chance(1, 8));
    m.text = ref.str();
    bool thrown = false;
    gFailIn = r.chance(1, 2) ? r.below(3) : -1;
    try {
      printer >> (m.nl ? 1 : 0);
    } catch (const SinkError &) {
      thrown = true;
    }
    gFailIn = -1;
    event(thrown ? "sink-failures" : "sink-fine");
    ms.push_back(m);
  }
  for (int s = 0; s < 3; s++) {
    Seen o;
    CHECKR(flatten(s, o), "escape", "sink %d got a broken or unwanted colour code", s);
    size_t p = 0;
    std::string id, why;
    for (size_t i = 0; i < ms.size(); i++)
      CHECKR(take(o, p, ms[i], false, COLORED[s], &id, why), "after-failure", "sink %d message %zu: %s", s, i, why.c_str());
    CHECK(p == o.text.size(), "extra", "sink %d got '%s' too", s, esc(o.text.substr(p, 60)).c_str());
  }
}

// numbers follow the locale given to the printer of this thread
struct Comma : std::numpunct<char> {
  char do_thousands_sep() const override { return '\''; }
  std::string do_grouping() const override { return "\3"; }
  char do_decimal_point() const override { return ','; }
};
MON_SECTION(locale, 200, 2000) {
  setup();
  gDelay = 0;
  auto &r = c.rng;
  std::locale loc(std::locale::classic(), new Comma);
  std::stringstream ref;
  ref.imbue(loc);
  int v = int(r.edgy(32));
  double d = r.uniform(-9999, 9999);
  for (auto &l : gLog)
    l.clear();
  printer.Locale(loc);
  printer << v << ' ' << d >> 1;
  ref << v << ' ' << d << "\n";
  printer.Locale(std::locale::classic());
  printer << v >> 1;
  ref.imbue(std::locale::classic());
  ref << v << "\n";
  std::string t;
  for (auto &p : gLog[1])
    t += p;
  CHECK(t == ref.str(), "locale", "'%s', not '%s'", esc(t).c_str(), esc(ref.str()).c_str());
  event("locale");
}

MON_SECTION(threads, 60, 1500) {
  setup();
  auto &r = c.rng;
  for (auto &l : gLog)
    l.clear();
  gDelay = r.chance(1, 2) ? int(1 + r.below(20)) : 0;
  bool ids = r.chance(1, 2);
  printer.PrintThreadID(ids);
  size_t nt = 2 + r.below(7), per = 5 + r.below(40);
  note(fmt("%zu threads %zu messages delay %d", nt, per, gDelay));
  std::vector<std::vector<Msg>> sent(nt);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nt; t++) {
    uint64_t seed = r.u64();
    ts.emplace_back([&, t, seed] {
      Rng q(seed);
      ready++;
      while (ready < nt)
        std::this_thread::yield();
      for (size_t i = 0; i < per; i++) {
        Msg m{Kind(q.below(4)), q.chance(2, 3), ""};
        std::stringstream ref;
        printer << '<' << t << ',' << i << '>';
        ref << '<' << t << ',' << i << '>';
        if (m.kind != MSG)
          printer << mp(m.kind);
        bool huge = q.chance(1, 12);
        for (size_t k = q.below(5); k; k--)
          piece(q, ref, huge);
        m.text = ref.str();
        printer >> (m.nl ? 1 : 0);
        sent[t].push_back(m);
      }
    });
  }
  for (auto &t : ts)
    t.join();
  gDelay = 0;
  printer.PrintThreadID(false);
  std::string order0;
  for (int s = 0; s < 3; s++) {
    Seen o;
    CHECKR(flatten(s, o), "t-escape", "sink %d got a broken or unwanted colour code", s);
    std::vector<size_t> next(nt);
    std::vector<std::string> id(nt);
    size_t p = 0, got = 0;
    std::string order;
    while (p < o.text.size()) {
      // which thread is it
      size_t b = o.text.find('<', p);
      size_t t = b == o.text.npos ? nt : size_t(atoi(o.text.c_str() + b + 1));
      CHECKR(t < nt && next[t] < per, "t-unknown", "sink %d: unknown message '%s'", s, esc(o.text.substr(p, 80)).c_str());
      std::string why;
      CHECKR(take(o, p, sent[t][next[t]], ids, COLORED[s], &id[t], why), "t-message", "sink %d thread %zu message %zu: %s", s, t, next[t],
             why.c_str());
      next[t]++;
      got++;
      order += char('A' + t);
    }
    CHECK(got == nt * per, "t-lost", "sink %d got %zu of %zu messages", s, got, nt * per);
    CHECK(o.last.empty(), "t-color-left", "sink %d left in colour '%s'", s, o.last.c_str());
    if (!s)
      order0 = order;
    CHECK(order == order0, "t-order", "sink %d saw another order than the first", s);
  }
  size_t sw = 0;
  for (size_t i = 1; i < order0.size(); i++)
    sw += order0[i] != order0[i - 1];
  event("thread-switches", sw);
  event("threaded-messages", nt * per);
  distinct(hashBytes(order0.data(), order0.size()));
}
MON_MAIN
