// C17: threaded queue runs every task exactly once and waits for all of them.
#include "datas/multi_thread.hpp"
#include "mon.hpp"
#include <atomic>
#include <stdexcept>
using namespace mon;

static unsigned gHw = 4;
namespace std {
// reported number of hardware threads is part of the workload
unsigned thread::hardware_concurrency() noexcept { return gHw; }
} // namespace std

static void idle(unsigned us) {
  if (us > 400)
    std::this_thread::sleep_for(std::chrono::microseconds(us));
  else if (us > 200)
    std::this_thread::yield();
}

MON_SECTION(once, 250, 6000) {
  auto &r = c.rng;
  gHw = unsigned(r.chance(1, 6) ? 0 : 1 + r.below(12));
  size_t n = r.chance(1, 10) ? 0 : r.chance(1, 3) ? r.below(gHw + 3) : r.len(120, 1500);
  unsigned maxDelay = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 800 : 5000;
  if (n > 60 && maxDelay > 800)
    maxDelay = 800;
  bool throwing = r.chance(1, 4);
  note(fmt("%zu tasks on %u threads, delay %u%s", n, gHw, maxDelay, throwing ? ", throwing" : ""));
  uint64_t seed = r.u64();
  std::vector<int> runs(n);       // plain: written by tasks, read after the return
  std::vector<uint64_t> result(n);
  std::vector<std::thread::id> who(n);
  std::atomic<int> running{0}, peak{0}, started{0}, done{0};
  std::atomic<size_t> bad{0};
  int doneAtReturn;
  auto body = [&](size_t i) -> int {
    int now = running.fetch_add(1, std::memory_order_relaxed) + 1;
    int pk = peak.load(std::memory_order_relaxed);
    while (pk < now && !peak.compare_exchange_weak(pk, now, std::memory_order_relaxed))
      ;
    started.fetch_add(1, std::memory_order_relaxed);
    if (i >= n) {
      bad.fetch_add(1, std::memory_order_relaxed);
      running.fetch_sub(1, std::memory_order_relaxed);
      return 0;
    }
    Rng q(seed + i);
    if (maxDelay)
      idle(unsigned(q.below(maxDelay)));
    runs[i]++;
    result[i] = seed ^ (i * 0x9e3779b97f4a7c15ull);
    who[i] = std::this_thread::get_id();
    bool thr = throwing && q.chance(1, 3);
    running.fetch_sub(1, std::memory_order_relaxed);
    done.fetch_add(1, std::memory_order_relaxed);
    if (thr)
      throw std::runtime_error("task");
    return 1;
  };
  bool escaped = false;
  try {
    RunThreadedQueue(n, body);
  } catch (const std::exception &) {
    escaped = true;
  }
  doneAtReturn = done.load(std::memory_order_relaxed);
  CHECK(!bad, "index", "a task got an index past %zu", n);
  if (!escaped) {
    CHECK(size_t(doneAtReturn) == n, "early", "%d of %zu tasks done when the queue returned", doneAtReturn, n);
  }
  // let stragglers of a broken queue finish before their data goes away
  for (int k = 0; k < 2000 && running.load(); k++)
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
  for (size_t i = 0; i < n; i++)
    CHECK(runs[i] == 1 && result[i] == (seed ^ (i * 0x9e3779b97f4a7c15ull)), "once", "task %zu of %zu ran %d times", i, n, runs[i]);
  CHECK(!escaped || throwing, "thrown", "queue threw without a reason");
  CHECK(peak <= int(std::max(gHw, 1u)), "peak", "%d tasks at a time on %u threads", peak.load(), gHw);
  event("tasks", n);
  if (throwing)
    event("throwing-queues");
  if (!n)
    event("empty-queues");
  if (peak > 1)
    event("concurrent-queues");
  if (!gHw)
    event("unknown-hardware");
  distinct(n * 64 + gHw + (uint64_t(maxDelay) << 32) + (uint64_t(peak.load()) << 50));
}

// a slow task doesn't hold up the others
MON_SECTION(slow, 40, 800) {
  auto &r = c.rng;
  gHw = unsigned(2 + r.below(6));
  size_t n = 2 + r.below(30), slow = r.below(n);
  note(fmt("%zu tasks on %u threads, %zu waits for others", n, gHw, slow));
  std::atomic<size_t> others{0};
  bool late = false;
  RunThreadedQueue(n, [&](size_t i) {
    if (i != slow) {
      others++;
      return;
    }
    for (int k = 0; k < 20000 && others < n - 1; k++)
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    late = others < n - 1;
  });
  CHECK(!late, "held-up", "%zu of %zu other tasks ran while task %zu was waiting for them", others.load(), n - 1, slow);
  event("slow-tasks");
  distinct(n * 1000 + slow * 10 + gHw);
}

// queues inside of tasks, and several callers at once
MON_SECTION(nested, 40, 800) {
  auto &r = c.rng;
  gHw = unsigned(1 + r.below(4));
  size_t n = 1 + r.below(6), m = 1 + r.below(6);
  std::vector<std::vector<int>> runs(n, std::vector<int>(m));
  RunThreadedQueue(n, [&](size_t i) { RunThreadedQueue(m, [&, i](size_t k) { runs[i][k]++; }); });
  for (auto &row : runs)
    for (int x : row)
      CHECK(x == 1, "nested-once", "nested task ran %d times", x);
  std::vector<int> a(20), b(20);
  std::thread other([&] { RunThreadedQueue(20, [&](size_t i) { a[i]++; }); });
  RunThreadedQueue(20, [&](size_t i) { b[i]++; });
  other.join();
  for (size_t i = 0; i < 20; i++)
    CHECK(a[i] == 1 && b[i] == 1, "callers", "task %zu ran %d and %d times", i, a[i], b[i]);
  event("nested");
  distinct(n * 100 + m);
}
MON_MAIN
