// C43: threads working on objects of their own do not disturb each other.
#include "datas/allocator_hybrid.hpp"
#include "datas/binreader.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/directory_scanner.hpp"
#include "datas/except.hpp"
#include "datas/fileinfo.hpp"
#include "datas/multi_thread.hpp"
#include "datas/pugiex.hpp"
#include "datas/reflector_io.hpp"
#include "datas/reflector_xml.hpp"
#include "datas/settings_manager.hpp"
#include "datas/stat.hpp"
#include "datas/unicode.hpp"
#include "datas/zip_vfs.hpp"
#include "formats/ZIP_ostream.inl"
#include "datas/encrypt/blowfish2.h"
#include "datas/encrypt/xorenc.hpp"
#include "datas/float.hpp"
#include "datas/jenkinshash.hpp"
#include "datas/jenkinshash3.hpp"
#include "datas/matrix44.hpp"
#include "datas/vectors_stream.hpp"
#include "datas/vectors_string.hpp"
#include "formats/BlockDecoder.inl"
#include "formats/DDS.hpp"
#include "formats/addr_ps3.hpp"
#include "uni/format.hpp"
#include "refl_fixture.hpp"
#include "refl_io.hpp"
#include "refl_text.hpp"
#include "uni/list_vector.hpp"
#include <atomic>
#include <dirent.h>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using namespace mon;

struct Spared {};
struct Box : IOBox {
  explicit Box(Rng &r) : IOBox(r, true) {}
};
#define WORK_PRIVATE
#include "work.hpp"

struct Job {
  const Work *w;
  Env e;
  Rng r;
  std::string got;
};
static std::vector<Job> jobs(Case &c, int kind) {
  std::vector<Job> js;
  const size_t n = 2 + c.rng.below(5);
  const std::string top = S().scratch + fmt("/j%llu", (unsigned long long)c.idx);
  ::mkdir(top.c_str(), 0755);
  for (size_t t = 0; t < n; t++) {
    Env e = prepare(c);
    const std::string own = top + "/" + std::to_string(t);
    rename(e.root.c_str(), own.c_str());
    e.root = own;
    js.push_back({kind >= 0 ? &WORK[kind] : &WORK[c.rng.below(NWORK)], e, Rng(c.rng.u64()), ""});
    if (t && c.rng.chance(1, 3)) // the same work twice
      js[t].w = js[t - 1].w, js[t].r = js[t - 1].r;
  }
  return js;
}
static std::string plain(const Job &j, std::string seen) { // names of folders differ
  for (size_t p; (p = seen.find(j.e.root)) != seen.npos;)
    seen.replace(p, j.e.root.size(), "~");
  return seen;
}
static void together(std::vector<Job> &js) {
  std::atomic<size_t> ready{0};
  std::vector<std::thread> ts;
  for (auto &j : js)
    ts.emplace_back([&] {
      ready++;
      while (ready < js.size())
        std::this_thread::yield();
      j.got = j.w->work(j.r, j.e);
    });
  for (auto &t : ts)
    t.join();
}
static std::string different(std::vector<Job> &js) {
  for (auto &j : js) {
    const std::string want = plain(j, j.w->work(j.r, j.e)), got = plain(j, j.got);
    if (got != want) {
      size_t at = 0;
      while (at < got.size() && at < want.size() && got[at] == want[at])
        at++;
      return fmt("%s beside %s gave '%s' where it gives '%s' alone", j.w->name, js[&j == &js[0]].w->name, esc(got.substr(at, 60)).c_str(), esc(want.substr(at, 60)).c_str());
    }
  }
  return "";
}
static void registered() {
  ioRegister();
  static RegisterReflectedTypes<Level, Prefs> r;
  (void)r;
}
static void drop(const std::string &dir) {
  if (DIR *d = opendir(dir.c_str())) {
    while (dirent *e = readdir(d))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
        e->d_type == DT_DIR ? drop(dir + "/" + e->d_name) : (void)unlink((dir + "/" + e->d_name).c_str());
    closedir(d);
  }
  rmdir(dir.c_str());
}

// the first use of something in a process, by several threads at once
MON_SECTION(first, 152, 3800) {
  const int kind = c.idx % (NWORK + 1);
  std::vector<Job> js = jobs(c, kind < int(NWORK) ? kind : -1);
  const std::string top = S().scratch + fmt("/j%llu", (unsigned long long)c.idx), out = top + "/out", err = top + "/err";
  const pid_t p = fork();
  if (!p) {
    const int fd = open(err.c_str(), O_CREAT | O_WRONLY, 0600);
    dup2(fd, 2);
    alarm(120);
    registered();
    together(js);
    writeFile(out, different(js));
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  const std::string e = readFile(err), d = st == 0 ? readFile(out) : "";
  const size_t at = e.find("WARNING: ThreadSanitizer");
  const char *name = kind < int(NWORK) ? WORK[kind].name : "mixed";
  CHECK(st == 0, fmt("ended %s", name), "first use (%s) in several threads ended with %x: %s", name, st, e.substr(at == e.npos ? 0 : at, 1100).c_str());
  CHECK(d.empty(), fmt("first %s", name), "first use in several threads: %s", d.c_str());
  distinct(js[0].r.u64());
  event("first-uses");
  drop(top);
}
// work of many kinds beside each other
MON_SECTION(beside, 100, 6000) {
  registered();
  std::vector<Job> js = jobs(c, -1);
  for (int round = c.thorough ? 3 : 2; round; round--) {
    together(js);
    const std::string d = different(js);
    CHECK(d.empty(), "beside", "%s", d.c_str());
    for (auto &j : js) {
      event(j.w->name);
      distinct(hashBytes(j.got.data(), j.got.size()));
      j.r = Rng(c.rng.u64());
    }
  }
  drop(S().scratch + fmt("/j%llu", (unsigned long long)c.idx));
}
MON_MAIN
