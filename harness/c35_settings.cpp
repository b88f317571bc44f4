// C35: logs and help of settings.
#include "datas/bitfield.hpp"
#include "datas/settings_manager.hpp"
#include "mon.hpp"
#include <atomic>
#include <clocale>
#include <dirent.h>
#include <map>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using namespace mon;

REFLECTOR_CREATE(Quality, ENUM, 1, CLASS, Low, Middle, High = 7);
REFLECTOR_CREATE(Mode, ENUM, 2, CLASS, 8, Fast, Slow, Exact);

struct Inner {
  float scale;
  Quality quality;
  uint8 counts[3];
  void ReflectorTag();
};
REFLECTOR_CREATE(Inner, 1, EXTENDED, (D, scale, "How much to scale."), (, quality), (A, counts, "numbers"));
struct Plain {
  int16 first;
  Inner inner;
  void ReflectorTag();
};
REFLECTOR_CREATE(Plain, 1, VARNAMES, first, inner);

using low = BitMemberDecl<0, 3>;
using high = BitMemberDecl<1, 5>;
using Packed = BitFieldType<uint8, low, high>;
REFLECTOR_CREATE(Packed, BITFIELD, 1, VARNAMES, low, high);

struct Rich : SettingsManager<Rich> {
  bool enabled = false;
  int32 number = 1;
  uint64 big = 2;
  double ratio = .5;
  std::string folder;
  Quality quality = Quality::Low;
  Mode mode = Mode::Slow;
  Inner inner{};
  Plain many[2]{};
  int8 list[4]{};
};
REFLECTOR_CREATE(Rich, 1, EXTENDED, (AD, enabled, "is-enabled", "Turns it on."), (A, number, "how many"), (D, big, "A big number."), (, ratio),
                 (AD, folder, "where", "Place: any."), (D, quality, "How well."), (AD, mode, "how", "How it works."), (D, inner, "Inner things."), (, many),
                 (A, list, "a list"));
struct Bare : SettingsManager<Bare> {
  float size = 1;
  uint16 count = 3;
  Mode mode = Mode::Exact;
  Plain plain{};
  Packed packed{};
  Packed rows[2]{};
};
REFLECTOR_CREATE(Bare, 1, VARNAMES, size, count, mode, plain, packed, rows);

static void setup() {
  static bool once = [] {
    setlocale(LC_ALL, "C");
    RegisterReflectedTypes<Quality, Mode, Inner, Plain, Packed, Rich, Bare>();
    return true;
  }();
  (void)once;
}

static std::string number(double v) { return fmt("%.13g", v); }
static const char *nameOf(Quality q) { return q == Quality::Low ? "Low" : q == Quality::Middle ? "Middle" : "High"; }
static const char *nameOf(Mode m) { return m == Mode::Fast ? "Fast" : m == Mode::Slow ? "Slow" : "Exact"; }

typedef std::vector<std::pair<std::string, std::string>> Pairs;
static Pairs fill(Rng &r, Rich &s) {
  s.enabled = r.chance(1, 2);
  s.number = int32(r.edgy(32));
  s.big = r.edgy(64);
  s.ratio = (int(r.below(20001)) - 10000) / 64.;
  s.folder = r.text(r.below(r.chance(1, 4) ? 5000 : 30), "abc XYZ/\\:%{}[]\"'01.");
  s.quality = r.pick(std::vector<Quality>{Quality::Low, Quality::Middle, Quality::High});
  s.mode = r.pick(std::vector<Mode>{Mode::Fast, Mode::Slow, Mode::Exact});
  std::string list;
  for (auto &l : s.list) {
    l = int8(r.u32());
    list += (list.empty() ? "" : ", ") + std::to_string(int(l));
  }
  return {{"is-enabled", s.enabled ? "true" : "false"}, {"how many", std::to_string(s.number)}, {"big", std::to_string(s.big)}, {"ratio", number(s.ratio)},
          {"where", s.folder}, {"quality", nameOf(s.quality)}, {"how", nameOf(s.mode)}, {"inner", "*"}, {"many", "*"}, {"a list", "{" + list + "}"}};
}
static Pairs fill(Rng &r, Bare &s) {
  s.size = (int(r.below(2001)) - 1000) / 8.f;
  s.count = uint16(r.edgy(16));
  s.mode = r.pick(std::vector<Mode>{Mode::Fast, Mode::Slow, Mode::Exact});
  return {{"size", fmt("%.6g", s.size)}, {"count", std::to_string(s.count)}, {"mode", nameOf(s.mode)}, {"plain", "*"}, {"packed", "*"}, {"rows", "*"}};
}

static std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> out;
  size_t at = 0;
  while (at < s.size()) {
    size_t e = s.find('\n', at);
    if (e == s.npos)
      e = s.size();
    out.push_back(s.substr(at, e - at));
    at = e + 1;
  }
  return out;
}

static std::string oneFile(const std::string &dir, std::string &name) {
  std::string found;
  if (DIR *d = opendir(dir.c_str())) {
    while (dirent *e = readdir(d))
      if (e->d_name[0] != '.') {
        CHECK(found.empty(), "log", "more than one log was made");
        found = e->d_name;
      }
    closedir(d);
  }
  CHECK(!found.empty(), "log", "no log was made");
  name = found;
  return readFile(dir + "/" + found);
}

template <class S_> static void logs(Case &c, const char *kind) {
  Rng &r = c.rng;
  setup();
  S_ s;
  const Pairs want = fill(r, s);
  const std::string dir = S().scratch + "/" + kind + std::to_string(c.idx);
  ::mkdir(dir.c_str(), 0755);
  setenv("TZ", r.pick(std::vector<std::string>{"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "XYZ+09:30", "<+1245>-12:45", "AAA-14"}).c_str(), 1);
  tzset();
  const time_t t0 = time(nullptr);
  const std::string prefix = r.pick(std::vector<std::string>{"log", "a b", "x.y", "settings"});
  // a log that can not be made does not stop the next one
  if (r.chance(1, 4)) {
    s.CreateLog(dir + "/not there/" + prefix);
    printline("nowhere to go");
    event("impossible-logs");
  }
  s.CreateLog(dir + "/" + prefix);
  // what is printed from now on is in the log
  std::vector<std::string> printed;
  for (unsigned n = r.below(10); n; n--) {
    std::string text = r.text(r.below(r.chance(1, 5) ? 3000 : 60), "abcdefgh ijk0123456789");
    switch (r.below(3)) {
    case 0: printline(text); break;
    case 1:
      printwarning(text);
      text = "WARNING: " + text;
      break;
    default: printerror(text); text = "ERROR: " + text;
    }
    printed.push_back(text);
  }
  std::vector<std::thread> ts;
  std::atomic<int> go{0};
  const bool threads = r.chance(1, 3);
  if (threads) {
    for (int k = 0; k < 3; k++)
      ts.emplace_back([k, &go] {
        go++;
        while (go < 3)
          ;
        for (int n = 0; n < 20; n++) {
          printline("thread " << k << " line " << n);
        }
      });
    for (auto &t : ts)
      t.join();
    event("threaded-logs");
  }
  S_::GetLogger().flush();
  std::string name;
  const std::string text = oneFile(dir, name);
  // name and date
  CHECK(!name.compare(0, prefix.size(), prefix) && name.size() == prefix.size() + 22 && name.substr(name.size() - 4) == ".txt", "log name", "the log is named %s", name.c_str());
  const auto ls = lines(text);
  bool dated = false, told = false;
  for (time_t t = t0 - 1; t <= time(nullptr) + 1; t++) { // time() may lag behind the system clock by a tick
    char date[64];
    tm parts = *localtime(&t);
    strftime(date, sizeof date, "_%y_%m_%d-%H.%M.%S", &parts);
    dated |= name == prefix + date + ".txt";
    strftime(date, sizeof date, "Current time: %c %Z", &parts);
    told |= !ls.empty() && ls[0] == date;
  }
  CHECK(dated, "log name", "the log is named %s, after another time", name.c_str());
  CHECK(told, "log head", "the log tells '%s'", ls.empty() ? "nothing" : esc(ls[0]).c_str());
  CHECK(ls.size() > 1 && ls[1] == "Number of concurrent threads: " + std::to_string(std::thread::hardware_concurrency()), "log head", "the log tells '%s'",
        ls.size() > 1 ? esc(ls[1]).c_str() : "nothing");
  event("log-heads");
  // configuration, one line per setting in their order, under the names users know
  size_t at = 0;
  while (at < ls.size() && ls[at] != "Configuration:")
    at++;
  CHECK(at < ls.size(), "configuration", "there is no configuration in the log");
  for (auto &w : want) {
    if (++at >= ls.size()) {
      violation("configuration", "setting " + w.first + " is not in the log");
      break;
    }
    if (w.second == "*")
      CHECK(!ls[at].compare(0, w.first.size() + 3, "\t" + w.first + ": "), "configuration", "line '%s' is not of setting %s", esc(ls[at]).c_str(), w.first.c_str());
    else
      CHECK(ls[at] == "\t" + w.first + ": " + w.second, "configuration", "line '%s', not '%s: %s'", esc(ls[at]).c_str(), w.first.c_str(), esc(w.second).c_str());
    event("settings");
  }
  at++;
  CHECK(at < ls.size() && ls[at].empty(), "configuration", "more lines than settings");
  // printed lines, each whole, in order
  for (auto &p : printed) {
    at++;
    const bool same = at < ls.size() && ls[at] == p;
    CHECK(same, "printed", "line '%s' printed, '%s' logged", esc(p.substr(0, 80)).c_str(), at < ls.size() ? esc(ls[at].substr(0, 80)).c_str() : "nothing");
    if (!same)
      break;
    event("printed-lines");
  }
  if (threads) {
    std::map<int, int> next;
    for (at++; at < ls.size(); at++) {
      int k = -1, n = -1;
      CHECK(sscanf(ls[at].c_str(), "thread %d line %d", &k, &n) == 2 && ls[at] == fmt("thread %d line %d", k, n), "threads", "line '%s' in the log", esc(ls[at]).c_str());
      CHECK(next[k]++ == n, "threads", "line %d of thread %d out of order", n, k);
    }
    CHECK(next[0] == 20 && next[1] == 20 && next[2] == 20, "threads", "lines %d, %d and %d of 20 each", next[0], next[1], next[2]);
  } else
    CHECK(at + 1 == ls.size(), "printed", "%zu lines more than printed", ls.size() - at - 1);
  if (c.idx < 2)
    sample(esc(text.substr(0, 300)));
  // the next log leaves this one as it is
  if (r.chance(1, 3)) {
    const std::string dir2 = dir + "b";
    ::mkdir(dir2.c_str(), 0755);
    S_ t;
    const Pairs want2 = fill(r, t);
    t.CreateLog(dir2 + "/next");
    printline("only in the next one");
    S_::GetLogger().flush();
    std::string name2;
    const auto ls2 = lines(oneFile(dir2, name2));
    size_t in2 = 0;
    while (in2 < ls2.size() && ls2[in2] != "Configuration:")
      in2++;
    CHECK(in2 + want2.size() + 2 < ls2.size() && ls2.size() == in2 + want2.size() + 3 && ls2.back() == "only in the next one", "next log", "the next log has %zu lines, ends with '%s'",
          ls2.size(), ls2.empty() ? "" : esc(ls2.back().substr(0, 80)).c_str());
    for (size_t k = 0; k < want2.size() && in2 + 1 + k < ls2.size(); k++)
      if (want2[k].second != "*")
        CHECK(ls2[in2 + 1 + k] == "\t" + want2[k].first + ": " + want2[k].second, "next log", "line '%s', not '%s: %s'", esc(ls2[in2 + 1 + k]).c_str(), want2[k].first.c_str(),
              esc(want2[k].second).c_str());
    CHECK(readFile(dir + "/" + name) == text, "former log", "the former log changed");
    unlink((dir2 + "/" + name2).c_str());
    rmdir(dir2.c_str());
    event("next-logs");
  }
  event("logs");
  distinct(hashBytes(text.data(), text.size()));
  unlink((dir + "/" + name).c_str());
  rmdir(dir.c_str());
}
MON_SECTION(richlog, 60, 3000) { logs<Rich>(c, "rich"); }
MON_SECTION(barelog, 60, 3000) { logs<Bare>(c, "bare"); }

/* help */
struct Line {
  int level;
  std::string text;
};
static void members(std::vector<Line> &o, int level, const char *name, const char *desc) {
  o.push_back({level, name});
  if (desc)
    o.push_back({level + 1, desc});
}
static const char *QV = "Values: Low, Middle, High, ", *MV = "Values: Fast, Slow, Exact, ";
static void innerHelp(std::vector<Line> &o, int level) {
  members(o, level, "scale", "How much to scale.");
  members(o, level, "quality", QV);
  members(o, level, "counts", nullptr);
}
static void plainHelp(std::vector<Line> &o, int level) {
  members(o, level, "first", nullptr);
  members(o, level, "inner", nullptr);
  innerHelp(o, level + 1);
}
static std::string trimmed(std::string s) {
  while (!s.empty() && (s.back() == ' ' || s.back() == ','))
    s.pop_back();
  return s;
}
template <class C> static void help(const std::vector<Line> &want, const char *title) {
  setup();
  C s;
  std::stringstream str;
  s.GetHelp(str);
  const auto ls = lines(str.str());
  CHECK(ls.size() == want.size() + 1, "help", "%zu lines of help, not %zu", ls.size(), want.size() + 1);
  CHECK(ls.size() && ls[0].find(title) == 0, "help", "the help does not name the class");
  for (size_t k = 0; k < want.size() && k + 1 < ls.size(); k++) {
    size_t tabs = ls[k + 1].find_first_not_of('\t');
    if (tabs == std::string::npos)
      tabs = ls[k + 1].size();
    CHECK(int(tabs) == want[k].level && trimmed(ls[k + 1].substr(tabs)) == trimmed(want[k].text), "help", "line %zu is '%s', not level %d '%s'", k, esc(ls[k + 1]).c_str(),
          want[k].level, want[k].text.c_str());
    event("help-lines");
  }
}
MON_SECTION(help, 20, 100) {
  std::vector<Line> o;
  members(o, 1, "enabled", "Turns it on.");
  members(o, 1, "number", nullptr);
  members(o, 1, "big", "A big number.");
  members(o, 1, "ratio", nullptr);
  members(o, 1, "folder", "Place: any.");
  members(o, 1, "quality", "How well.");
  o.push_back({2, QV});
  members(o, 1, "mode", "How it works.");
  o.push_back({2, MV});
  members(o, 1, "inner", "Inner things.");
  innerHelp(o, 2);
  members(o, 1, "many", nullptr);
  plainHelp(o, 2);
  members(o, 1, "list", nullptr);
  help<Rich>(o, "Rich");
  o.clear();
  members(o, 1, "size", nullptr);
  members(o, 1, "count", nullptr);
  members(o, 1, "mode", MV);
  members(o, 1, "plain", nullptr);
  plainHelp(o, 2);
  for (auto name : {"packed", "rows"}) {
    members(o, 1, name, nullptr);
    members(o, 2, "low", nullptr);
    members(o, 2, "high", nullptr);
  }
  help<Bare>(o, "Bare");
  (void)c;
}
MON_MAIN
