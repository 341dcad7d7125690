// Readers with the readAll interface the threaded electronCount needs.
#pragma once
#include "blocks.h"
#include <functional>
#include <future>
#include <stdexcept>
#include <thread>
namespace hb {
// delivers every block from the calling thread before readAll returns
struct InlineReader
{
  std::vector<stempy::Block> blocks;
  template <typename F> std::future<void> readAll(F &f)
  {
    for (auto &b : blocks) f(b);
    std::promise<void> p;
    p.set_value();
    return p.get_future();
  }
};
// delivers the blocks concurrently from nThreads worker threads
struct ConcurrentReader
{
  std::vector<stempy::Block> blocks;
  int nThreads = 2;
  std::vector<std::thread> threads;
  std::mutex mtx;
  size_t next = 0;
  int left = 0;
  bool fail = false; // report a read error at the end
  std::promise<void> done;
  template <typename F> std::future<void> readAll(F &f)
  {
    left = nThreads;
    auto fut = done.get_future();
    for (int t = 0; t < nThreads; ++t)
      threads.emplace_back([this, &f]() {
        while (true) {
          size_t i;
          {
            std::unique_lock<std::mutex> l(mtx);
            if (next >= blocks.size()) break;
            i = next++;
          }
          f(blocks[i]);
        }
        bool last;
        {
          std::unique_lock<std::mutex> l(mtx);
          last = --left == 0;
        }
        if (last && fail) { try { throw std::runtime_error("read error"); } catch (...) { done.set_exception(std::current_exception()); } }
        else if (last) done.set_value();
      });
    return fut;
  }
  ~ConcurrentReader()
  {
    for (auto &t : threads) if (t.joinable()) t.join();
  }
};
}
