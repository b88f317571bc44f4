// C33: making folders and telling kinds of files.
#include "datas/stat.hpp"
#include "mon.hpp"
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
using namespace mon;

static void walk(const std::string &at, const std::string &rel, std::set<std::string> &dirs, std::set<std::string> &files) {
  DIR *d = opendir(at.c_str());
  if (!d)
    return;
  while (dirent *e = readdir(d)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
      continue;
    const std::string full = at + "/" + e->d_name, r = rel + (rel.empty() ? "" : "/") + e->d_name;
    struct stat s;
    lstat(full.c_str(), &s);
    if (S_ISDIR(s.st_mode)) {
      dirs.insert(r);
      walk(full, r, dirs, files);
    } else
      files.insert(r);
  }
  closedir(d);
}
static void removeAll(const std::string &at) {
  std::set<std::string> dirs, files;
  walk(at, "", dirs, files);
  for (auto &f : files)
    unlink((at + "/" + f).c_str());
  for (auto it = dirs.rbegin(); it != dirs.rend(); ++it)
    rmdir((at + "/" + *it).c_str());
  rmdir(at.c_str());
}
static std::string part(Rng &r) {
  static const char *parts[] = {"a", "b", "ab", "a b", "a.b", "...", ".x", "model", "tex", "-", "!", "a!", "\xc3\xa9", "0", "z\"", "long name with spaces"};
  return parts[r.below(16)];
}
static std::string rel(Rng &r, std::vector<std::string> &parts) {
  parts.clear();
  std::string out;
  for (unsigned n = 1 + r.below(6); n; n--) {
    parts.push_back(part(r));
    out += (out.empty() ? "" : r.chance(1, 4) ? "\\" : "/") + parts.back();
  }
  return out;
}
static void add(std::set<std::string> &dirs, const std::vector<std::string> &parts, bool last) {
  std::string at;
  for (size_t k = 0; k + !last < parts.size(); k++) {
    at += (at.empty() ? "" : "/") + parts[k];
    dirs.insert(at);
  }
}
static void judge(const std::string &root, const std::set<std::string> &want, const std::set<std::string> &wantFiles, const char *what) {
  std::set<std::string> dirs, files;
  walk(root, "", dirs, files);
  for (auto &w : want)
    CHECK(dirs.count(w), "missing", "%s: folder %s was not made", what, esc(w).c_str());
  for (auto &d : dirs)
    CHECK(want.count(d), "unwanted", "%s: folder %s was made", what, esc(d).c_str());
  CHECK(files == wantFiles, "files", "%s: files changed", what);
  event("folders", dirs.size());
}

MON_SECTION(folders, 300, 10000) {
  Rng &r = c.rng;
  const std::string root = S().scratch + "/m" + std::to_string(c.idx);
  ::mkdir(root.c_str(), 0755);
  std::set<std::string> want, files;
  for (int step = 0; step < 4; step++) {
    std::vector<std::string> parts;
    if (r.chance(1, 2)) { // one path
      const std::string path = rel(r, parts);
      const bool slash = r.chance(1, 3);
      const std::string full = root + "/" + path + (slash ? "/" : "");
      const std::string copy = full;
      mkdirs(full);
      CHECK(full == copy, "argument", "the path was changed");
      add(want, parts, slash);
      if (c.idx < 2)
        sample("folders for " + esc(full));
      event(slash ? "folder-paths" : "file-paths");
    } else { // many files at once
      struct Item {
        int other;
        std::string name;
      };
      std::vector<Item> items;
      std::string under = root + "/";
      std::vector<std::string> prefix;
      if (r.chance(1, 3) && want.size()) { // below a folder that is there
        auto it = want.begin();
        std::advance(it, r.below(want.size()));
        prefix.push_back(*it);
        under += *it + "/";
      }
      for (unsigned n = r.below(12); n; n--) {
        Item i;
        i.name = rel(r, parts);
        std::vector<std::string> all = prefix;
        all.insert(all.end(), parts.begin(), parts.end());
        items.push_back(i);
        add(want, all, false);
      }
      if (r.chance(1, 2))
        mkdirs(under, items, [](const Item &i) { return i.name; });
      else {
        std::set<std::string> names;
        for (auto &i : items)
          names.insert(i.name);
        mkdirs(under, names, [](const std::string &i) -> const std::string & { return i; });
      }
      event("lists");
    }
    judge(root, want, files, "after making");
    // files in the new folders are openable and stay when the folders are made again
    if (want.size()) {
      auto it = want.begin();
      std::advance(it, r.below(want.size()));
      const std::string f = *it + "/file" + std::to_string(step);
      FILE *o = fopen((root + "/" + f).c_str(), "w");
      CHECK(o, "not usable", "a file can't be made in %s", esc(*it).c_str());
      if (o)
        fclose(o);
      files.insert(f);
      event("kept-files");
    }
  }
  // kinds
  for (auto &d : want)
    CHECK(FileType(root + "/" + d) == FileType_e::Directory && FileType(root + "/" + d + "/") == FileType_e::Directory, "kind", "folder %s is of kind %d",
          esc(d).c_str(), FileType(root + "/" + d));
  for (auto &f : files)
    CHECK(FileType(root + "/" + f) == FileType_e::File, "kind", "file %s is of kind %d", esc(f).c_str(), FileType(root + "/" + f));
  CHECK(FileType(root + "/missing") == FileType_e::Error && FileType("") == FileType_e::Error, "kind", "a missing file is of a kind");
  if (files.size())
    CHECK(FileType(root + "/" + *files.begin() + "/x") == FileType_e::Error, "kind", "a file below a file is of a kind");
  event("kinds", want.size() + files.size());
  distinct(hashBytes(root.data(), root.size()) + want.size() * 100 + files.size());
  removeAll(root);
}

MON_SECTION(kinds, 20, 200) {
  Rng &r = c.rng;
  const std::string root = S().scratch + "/k" + std::to_string(c.idx);
  ::mkdir(root.c_str(), 0755);
  const unsigned modes[] = {0644, 0600, 0755, 0, 0444, 04755, 01777, 02755};
  const std::string file = root + "/f", dir = root + "/d", fifo = root + "/p", sock = root + "/s";
  fclose(fopen(file.c_str(), "w"));
  ::mkdir(dir.c_str(), 0755);
  ::mkfifo(fifo.c_str(), 0644);
  const int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  sockaddr_un a{};
  a.sun_family = AF_UNIX;
  bool bound = false;
  char old[4096];
  if (getcwd(old, sizeof old) && !chdir(root.c_str())) { // socket names are short
    strcpy(a.sun_path, "s");
    bound = fd >= 0 && !bind(fd, reinterpret_cast<sockaddr *>(&a), sizeof a);
    if (chdir(old))
      violation("setup", "can't go back");
  }
  for (unsigned m : modes) {
    chmod(file.c_str(), m);
    chmod(dir.c_str(), m);
    chmod(fifo.c_str(), m);
    CHECK(FileType(file) == FileType_e::File, "kind", "a file with mode %o is of kind %d", m, FileType(file));
    CHECK(FileType(dir) == FileType_e::Directory, "kind", "a folder with mode %o is of kind %d", m, FileType(dir));
    CHECK(FileType(fifo) == FileType_e::Invalid, "kind", "a pipe with mode %o is of kind %d", m, FileType(fifo));
    if (bound) {
      chmod(sock.c_str(), m);
      CHECK(FileType(sock) == FileType_e::Invalid, "kind", "a socket with mode %o is of kind %d", m, FileType(sock));
      event("sockets");
    }
    event("modes");
  }
  CHECK(FileType("/dev/null") == FileType_e::Invalid, "kind", "a device is of kind %d", FileType("/dev/null"));
  const std::string link = root + "/l";
  for (auto &t : {file, dir, fifo, root + "/missing"}) {
    unlink(link.c_str());
    if (symlink(t.c_str(), link.c_str()))
      violation("setup", "can't make a link");
    CHECK(FileType(link) == FileType(t), "kind", "a link is of kind %d, what it leads to is of kind %d", FileType(link), FileType(t));
    event("links");
  }
  // single folders
  const unsigned mode = r.pick(std::vector<unsigned>{0700, 0755, 0750, 0777});
  const mode_t mask = umask(0);
  CHECK(es::mkdir(root + "/one", mode) == 0 && es::mkdir((root + "/two").c_str(), mode) == 0, "mkdir", "a folder can't be made");
  umask(mask);
  for (auto n : {"/one", "/two"}) {
    struct stat s;
    CHECK(!stat((root + n).c_str(), &s) && (s.st_mode & 07777) == mode, "mkdir", "mode %o became %o", mode, s.st_mode & 07777);
  }
  CHECK(es::mkdir(root + "/one") != 0, "mkdir", "a folder that is there was made again");
  CHECK(es::mkdir(root + "/no/three") != 0, "mkdir", "a folder was made in a missing one");
  event("single-folders", 2);
  distinct(c.idx);
  if (fd >= 0)
    close(fd);
  removeAll(root);
}
MON_MAIN
