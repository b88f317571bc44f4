// C40: memory, files, folders and threads are given back when objects end, also when something fails half way.
#include "datas/allocator_hybrid.hpp"
#include "datas/binreader.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/directory_scanner.hpp"
#include "datas/except.hpp"
#include "datas/fileinfo.hpp"
#include "datas/multi_thread.hpp"
#include "datas/pugiex.hpp"
#include "datas/reflector_io.hpp"
#include "datas/reflector_xml.hpp"
#include "datas/settings_manager.hpp"
#include "datas/stat.hpp"
#include "datas/unicode.hpp"
#include "datas/zip_vfs.hpp"
#include "formats/ZIP_ostream.inl"
#include "refl_fixture.hpp"
#include "refl_io.hpp"
#include "refl_text.hpp"
#include "uni/list_vector.hpp"
#include <atomic>
#include <dirent.h>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using namespace mon;

extern "C" size_t __sanitizer_get_current_allocated_bytes(); // of ASan

/* memory that runs out: the allocation that is to fail, on the armed thread */
static thread_local long gFailAt = -1; // -1: none
static thread_local long gCount = -1;  // -1: not counting
static void *take(size_t n) {
  if (gCount >= 0 && gCount++ == gFailAt) 
    throw std::bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
static void *takeOrNull(size_t n) noexcept {
  try {
    return take(n);
  } catch (...) {
    return nullptr;
  }
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return takeOrNull(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return takeOrNull(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }

// no failures while this side prepares something
struct Spared {
  long count = gCount;
  Spared() { gCount = -1; }
  ~Spared() { gCount = count; }
};
struct Box : Spared, IOBox {
  explicit Box(Rng &r) : IOBox(r, true) { gCount = count; }
};

/* what is taken at the moment */
struct Taken {
  size_t bytes, files, threads;
};
static size_t entries(const char *dir) {
  size_t n = 0;
  DIR *d = opendir(dir);
  while (readdir(d))
    n++;
  closedir(d);
  return n;
}
static Taken taken() { return {__sanitizer_get_current_allocated_bytes(), entries("/proc/self/fd"), entries("/proc/self/task")}; }

#include "work.hpp"
static void judge(const Work &w, const Taken &before, const char *when, long k) {
  Taken now = taken();
  for (int n = 0; n < 10000 && now.threads > before.threads; n++) { // an ended thread takes a moment to disappear
    usleep(1000);
    now = taken();
  }
  CHECK(now.bytes <= before.bytes, "memory kept", "%s: %zu bytes are not given back %s (%ld)", w.name, now.bytes - before.bytes, when, k);
  CHECK(now.files <= before.files, "files kept", "%s: %zu files or folders are left open %s (%ld)", w.name, now.files - before.files, when, k);
  CHECK(now.threads <= before.threads, "threads kept", "%s: %zu threads are left %s (%ld)", w.name, now.threads - before.threads, when, k);
}
MON_SECTION(work, 560, 28000) {
  const Work &w = WORK[c.idx % NWORK];
  const Env e = prepare(c);
  const Rng r = c.rng;
  const uint64_t first = w.run(r, e); // fills what is made once
  if (w.run(r, e) != first)
    violation("not repeatable", fmt("%s: the same work gives something else the second time", w.name));
  Taken before = taken();
  gCount = 0;
  const uint64_t want = w.run(r, e);
  const long total = gCount;
  gCount = -1;
  judge(w, before, "after plain work", 0);
  distinct(want);
  event(w.name);
  event("allocations", total);
  const int rounds = c.thorough ? 12 : 6;
  for (int n = 0; n < rounds && total; n++) {
    const long k = long(c.rng.below(total));
    note(fmt("%s: allocation %ld of %ld fails", w.name, k, total));
    bool failed = false;
    before = taken();
    gFailAt = k;
    gCount = 0;
    try {
      w.run(r, e);
    } catch (const std::bad_alloc &) {
      failed = true;
    } catch (const std::exception &) {
      failed = true;
    } catch (const SinkError &) {
      failed = true;
    }
    gCount = gFailAt = -1;
    // the same again, without failures, gives the same and leaves nothing behind
    const uint64_t again = w.run(r, e);
    CHECK(again == want, "differs", "%s: work after a failed allocation (%ld) gives something else", w.name, k);
    judge(w, before, "after a failed allocation", k);
    event(failed ? "failed-work" : "survived-failures");
  }
}
MON_MAIN
