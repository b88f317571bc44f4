// C32: folder scanning.
#include "datas/directory_scanner.hpp"
#include "mon.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace mon;

// a file system that does not tell what an entry is
static bool blind = false;
static uint64_t hidden = 0;
extern "C" dirent *readdir(DIR *d) {
  static const auto real = reinterpret_cast<dirent *(*)(DIR *)>(dlsym(RTLD_NEXT, "readdir"));
  dirent *e = real(d);
  if (e && blind) {
    e->d_type = DT_UNKNOWN;
    hidden++;
  }
  return e;
}

struct Tree {
  std::string root;
  std::vector<std::string> folders; // relative, "" is the root
  std::set<std::string> files;      // relative
  std::vector<std::string> made;    // for removal
};

static std::string name(Rng &r) {
  static const char *odd[] = {"...", ".hidden", "..x", "with space", "back\\", "quote\"", "\"", "\\", " ", "*", "a.b.c", "-", "~", "\xc3\xa9", "new\nline", "x'", "$HOME", "%s"};
  if (r.chance(1, 3))
    return odd[r.below(sizeof odd / sizeof *odd)];
  static const char *parts[] = {"model", "tex", ".dds", ".bin", "motion", "01", "readme", ".", "_", "DDS"};
  std::string s;
  for (unsigned n = 1 + r.below(3); n; n--)
    s += parts[r.below(10)];
  if (s == "." || s == "..")
    s += "z";
  if (r.chance(1, 20))
    s += std::string(r.chance(1, 2) ? 200 : 255 - s.size(), 'l'); // as long as names can be
  return s;
}

static Tree make(Rng &r, const std::string &root) {
  Tree t;
  t.root = root;
  CHECK(!mkdir(root.c_str(), 0755), "setup", "can't make %s", root.c_str());
  t.folders.push_back("");
  std::set<std::string> taken;
  const unsigned count = r.len(40, 800);
  const bool far = r.chance(1, 8); // paths nearly as long as paths can be
  for (unsigned k = 0; k < count; k++) {
    const std::string parent = r.chance(far ? 9 : 3, far ? 10 : 9) ? t.folders.back() : t.folders[r.below(t.folders.size())];
    const std::string rel = parent + (parent.empty() ? "" : "/") + name(r) + (far && r.chance(1, 2) ? std::string(180 + r.below(40), 'f') : "");
    if (rel.size() > 1500)
      event("long-paths");
    if (rel.size() - parent.size() > 256)
      continue;
    if (rel.size() > (far ? 3700 : 1500) || !taken.insert(rel).second)
      continue;
    const std::string full = root + "/" + rel;
    if (r.chance(2, 5)) {
      CHECK(!mkdir(full.c_str(), 0755), "setup", "can't make folder %s", full.c_str());
      t.folders.push_back(rel);
      event("folders");
    } else if (r.chance(1, 10)) {
      CHECK(!symlink(r.chance(1, 2) ? "." : "/dev/null", full.c_str()), "setup", "can't make link");
      t.files.insert(rel);
      event("links");
    } else {
      FILE *f = fopen(full.c_str(), "w");
      CHECK(f, "setup", "can't make file %s", full.c_str());
      fclose(f);
      t.files.insert(rel);
      event("files");
    }
    t.made.push_back(full);
  }
  return t;
}
static void drop(const Tree &t) {
  for (size_t k = t.made.size(); k--;)
    remove(t.made[k].c_str());
  rmdir(t.root.c_str());
}

static std::string base(const std::string &s) { return s.substr(s.rfind('/') + 1); }

static void judge(const std::vector<std::string> &got, const std::map<std::string, int> &want, const char *what) {
  std::map<std::string, int> seen;
  for (auto &g : got) {
    seen[g]++;
    struct stat s;
    CHECK(!lstat(g.c_str(), &s), "not there", "%s: %s is listed but not there", what, esc(g).c_str());
    CHECK(!S_ISDIR(s.st_mode), "folder listed", "%s: folder %s is listed", what, esc(g).c_str());
  }
  for (auto &w : want)
    CHECK(seen[w.first] == w.second, "missing", "%s: %s is listed %d times, not %d", what, esc(w.first).c_str(), seen[w.first], w.second);
  for (auto &s : seen)
    CHECK(want.count(s.first) || !s.second, "unwanted", "%s: %s is listed", what, esc(s.first).c_str());
  event("listed", got.size());
}

MON_SECTION(trees, 150, 5000) {
  Rng &r = c.rng;
  const std::string top = S().scratch + "/s" + std::to_string(c.idx);
  CHECK(!mkdir(top.c_str(), 0755), "setup", "can't make %s", top.c_str());
  std::vector<Tree> trees;
  const unsigned num = 1 + r.below(3);
  for (unsigned k = 0; k < num; k++)
    trees.push_back(make(r, top + "/" + (r.chance(1, 3) ? "a b" : "tree") + std::to_string(k)));
  DirectoryScanner sc;
  std::map<std::string, int> want;
  std::vector<std::string> filters;
  for (unsigned step = 0; step < 8; step++) {
    switch (r.below(7)) {
    case 0: {
      static const char *fl[] = {".dds", "tex", ".", "DDS", "nothing has this", "01", "\"", "s0", "tree", "l"};
      filters.push_back(r.chance(1, 20) ? "" : fl[r.below(10)]);
      sc.AddFilter(filters.back());
      event("filters");
      break;
    }
    case 1:
      sc.Clear();
      want.clear();
      event("clears");
      break;
    case 2:
      sc.ClearFilters();
      filters.clear();
      break;
    default: {
      const Tree &t = r.pick(trees);
      std::string sub = r.pick(t.folders);
      std::string from = t.root + (sub.empty() ? "" : "/" + sub);
      std::string given = from;
      // how users write folders: plain, ending with a slash, quoted on a command line
      const int way = from.back() == '\\' ? 1 + 2 * r.below(2) : from.back() == '"' ? 1 + r.below(3) : r.below(4);
      if (way == 1)
        given += "/";
      else if (way == 2)
        given += "\"";
      else if (way == 3)
        given += "/\"";
      blind = r.chance(1, 3);
      sc.Scan(given);
      event(blind ? "blind-scans" : "scans");
      blind = false;
      for (auto &f : t.files) {
        if (!sub.empty() && f.compare(0, sub.size() + 1, sub + "/"))
          continue;
        bool pass = filters.empty();
        for (auto &x : filters)
          pass |= base(f).find(x) != std::string::npos;
        if (pass)
          want[t.root + "/" + f]++;
        else
          event("filtered-out");
      }
      if (sub.size())
        event("scans-of-subfolders");
      if (c.idx < 3)
        sample(fmt("scan of %s with %zu filters", esc(given).c_str(), filters.size()));
    }
    }
    judge(sc.Files(), want, "files");
    judge({sc.begin(), sc.end()}, want, "iteration");
    judge({sc.cbegin(), sc.cend()}, want, "constant iteration");
  }
  // what is not there gives nothing
  const size_t before = sc.Files().size();
  sc.Scan(top + "/missing");
  struct stat fs;
  if (trees[0].files.size() && trees[0].files.begin()->find_last_of("\\\"") + 1 != trees[0].files.begin()->size() &&
      !lstat((trees[0].root + "/" + *trees[0].files.begin()).c_str(), &fs) && S_ISREG(fs.st_mode))
    sc.Scan(trees[0].root + "/" + *trees[0].files.begin());
  CHECK(sc.Files().size() == before, "missing folder", "a folder that is not there gave %zu files", sc.Files().size() - before);
  event("missing-folders");
  distinct(hashBytes(top.data(), top.size()) + trees[0].files.size() * 1000 + trees[0].folders.size());
  for (auto &t : trees)
    drop(t);
  rmdir(top.c_str());
}

// folders with many files, found again and again
MON_SECTION(crowded, 3, 60) {
  Rng &r = c.rng;
  const std::string root = S().scratch + "/w" + std::to_string(c.idx);
  CHECK(!mkdir(root.c_str(), 0755), "setup", "can't make %s", root.c_str());
  const unsigned count = 1500 + r.below(3000);
  std::vector<std::string> made{root};
  std::map<std::string, int> want;
  static const char *ext[] = {".dds", ".bin", ".tga"};
  for (unsigned k = 0; k < count; k++) {
    const std::string file = root + "/" + std::to_string(k) + ext[r.below(3)];
    FILE *f = fopen(file.c_str(), "w");
    CHECK(f, "setup", "can't make file");
    fclose(f);
    made.push_back(file);
  }
  DirectoryScanner sc;
  for (int k = 0; k < 4; k++) {
    std::string flt;
    if (k) {
      flt = ext[r.below(3)];
      sc.ClearFilters();
      sc.AddFilter(flt);
    }
    sc.Scan(root);
    for (size_t m = 1; m < made.size(); m++)
      if (base(made[m]).find(flt) != flt.npos)
        want[made[m]]++;
    judge(sc.Files(), want, "crowded folder");
  }
  event("crowded-folders");
  for (size_t k = made.size(); k--;)
    remove(made[k].c_str());
}

// the current folder
MON_SECTION(current, 5, 100) {
  Rng &r = c.rng;
  const std::string root = S().scratch + "/c" + std::to_string(c.idx);
  const Tree t = make(r, root);
  char old[4096];
  CHECK(getcwd(old, sizeof old) && !chdir(root.c_str()), "setup", "can't go to the folder");
  DirectoryScanner sc;
  sc.Scan("");
  std::map<std::string, int> want;
  for (auto &f : t.files)
    want[f]++;
  judge(sc.Files(), want, "current folder");
  sc.Clear();
  sc.Scan(".");
  want.clear();
  for (auto &f : t.files)
    want["./" + f]++;
  judge(sc.Files(), want, "dot");
  CHECK(!chdir(old), "setup", "can't go back");
  event("current-folders");
  drop(t);
}

// deep hierarchies
MON_SECTION(deep, 3, 30) {
  Rng &r = c.rng;
  const std::string root = S().scratch + "/d" + std::to_string(c.idx);
  CHECK(!mkdir(root.c_str(), 0755), "setup", "can't make %s", root.c_str());
  const unsigned depth = 50 + r.below(150);
  std::string at = root;
  std::vector<std::string> made{root};
  std::map<std::string, int> want;
  for (unsigned k = 0; k < depth; k++) {
    const std::string file = at + "/f" + std::to_string(k);
    FILE *f = fopen(file.c_str(), "w");
    CHECK(f, "setup", "can't make file");
    fclose(f);
    want[file]++;
    made.push_back(file);
    at += "/d";
    CHECK(!mkdir(at.c_str(), 0755), "setup", "can't make folder");
    made.push_back(at);
  }
  DirectoryScanner sc;
  for (int k = 0; k < 10; k++) { // also keeps no folder open
    sc.Clear();
    sc.Scan(root);
    judge(sc.Files(), want, "deep hierarchy");
  }
  unsigned open = 0;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (readdir(d))
      open++;
    closedir(d);
  }
  CHECK(open < 40, "left open", "%u descriptors are open", open);
  event("deep-levels", depth);
  for (size_t k = made.size(); k--;)
    remove(made[k].c_str());
}
MON_MAIN
