// T01: every task of the thread pool runs exactly once, its result or exception
// reaches its future, and the destructor finishes the queued tasks.
#include "ThreadPool.h"
#include "sx.h"
#include "sxrt.h"
#include <chrono>
#include <stdexcept>
static int ran[8];
extern "C" void sx_main()
{
  int64_t arg[K];
  for (int i = 0; i < K; ++i) arg[i] = sx::range(-1000, 1000, "arg");
  sxrt::setPreemptions(PRE);
  std::vector<std::future<int64_t>> fs;
  std::future<int> inner;
  bool innerThrew = false, innerQueued = false;
  {
    ThreadPool pool(NT);
    for (int i = 0; i < K; ++i)
      fs.push_back(pool.enqueue([i](int64_t a) -> int64_t {
        ++ran[i];
        if (a < 0) throw std::out_of_range("negative");
        return 2 * a + i;
      }, arg[i]));
#ifdef NESTED
    // a task that adds a task, possibly while the pool is being destroyed
    auto n = pool.enqueue([&]() {
      ++ran[6];
      try {
        inner = pool.enqueue([]() { ++ran[7]; return 5; });
        innerQueued = true;
      } catch (std::runtime_error &) { innerThrew = true; }
    });
#endif
#ifdef WAITING
    // a task that waits for one queued after it: the other worker has to take that one
    std::promise<int64_t> signal;
    auto signalled = signal.get_future();
    auto waits = pool.enqueue([&]() -> int64_t { ++ran[4]; return signalled.get(); });
    auto signals = pool.enqueue([&]() { ++ran[5]; signal.set_value(arg[0]); });
    sx::check(waits.get() == arg[0], "the waiting task gets the value of the other one");
    signals.get();
    sx::check(ran[4] == 1 && ran[5] == 1, "both tasks ran once");
#endif
#ifdef EARLY
    // the first result is taken while the pool lives
    int64_t v = -1;
    try { v = fs[0].get(); } catch (std::out_of_range &) { v = -2; }
    sx::check(v == (arg[0] < 0 ? -2 : 2 * arg[0]), "result of the first task");
    sx::check(ran[0] == 1, "the task ran before its future completed");
#endif
  }
  for (int i = 0; i < K; ++i) {
    sx::check(ran[i] == 1, "every task runs exactly once before the destructor returns");
#ifdef EARLY
    if (i == 0) continue;
#endif
    sx::check(fs[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready, "the future is complete after the destructor");
    int64_t v = -1;
    bool threw = false;
    try { v = fs[i].get(); } catch (std::out_of_range &) { threw = true; }
    sx::check(threw == (arg[i] < 0), "an exception reaches the future");
    sx::check(threw || v == 2 * arg[i] + i, "the result reaches the future");
  }
#ifdef NESTED
  sx::check(ran[6] == 1 && innerThrew != innerQueued, "adding a task either queues it or is an error");
  sx::check(ran[7] == innerQueued, "a queued task runs once, a rejected one never");
  if (innerQueued) sx::check(inner.wait_for(std::chrono::seconds(0)) == std::future_status::ready && inner.get() == 5, "result of the added task");
  sx::reach(innerQueued ? "queued" : "rejected");
#endif
  sx::reach("done");
}
