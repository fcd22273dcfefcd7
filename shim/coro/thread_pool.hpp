#pragma once
#include <condition_variable>
#include <coroutine>
#include <cstdint>
#include <deque>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>
#include "task.hpp"
namespace coro {
struct thread_pool_options {
    uint32_t thread_count = std::thread::hardware_concurrency();
    std::function<void(std::size_t)> on_thread_start_functor = nullptr;
    std::function<void(std::size_t)> on_thread_stop_functor = nullptr;
};
class thread_pool {
 public:
  using options = thread_pool_options;
  explicit thread_pool(options o = options{}) : opts_(std::move(o)) {
    for (uint32_t i = 0; i < opts_.thread_count; ++i) ts_.emplace_back([this, i] { run(i); });
  }
  thread_pool(const thread_pool &) = delete;
  thread_pool &operator=(const thread_pool &) = delete;
  ~thread_pool() { shutdown(); }
  struct operation {
    thread_pool &p;
    auto await_ready() noexcept -> bool { return false; }
    void await_suspend(std::coroutine_handle<> h) { p.push(h); }
    void await_resume() noexcept {}
  };
  [[nodiscard]] auto schedule() -> operation { return operation{*this}; }
  [[nodiscard]] auto yield() -> operation { return operation{*this}; }
  auto resume(std::coroutine_handle<> h) -> bool {
    if (!h || h.done()) return false;
    {
      std::lock_guard<std::mutex> g(m_);
      if (stop_) return false;
      q_.push_back(h);
    }
    cv_.notify_one();
    return true;
  }
  auto thread_count() const noexcept -> size_t { return ts_.size(); }
  void shutdown() {
    {
      std::lock_guard<std::mutex> g(m_);
      if (stop_) return;
      stop_ = true;
    }
    cv_.notify_all();
    for (auto &t : ts_)
      if (t.joinable()) t.join();
  }

 private:
  void push(std::coroutine_handle<> h) {
    {
      std::lock_guard<std::mutex> g(m_);
      q_.push_back(h);
    }
    cv_.notify_one();
  }
  void run(size_t i) {
    if (opts_.on_thread_start_functor) opts_.on_thread_start_functor(i);
    for (;;) {
      std::coroutine_handle<> h;
      {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [&] { return stop_ || !q_.empty(); });
        if (q_.empty()) break;
        h = q_.front();
        q_.pop_front();
      }
      h.resume();
    }
    if (opts_.on_thread_stop_functor) opts_.on_thread_stop_functor(i);
  }
  options opts_;
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<std::coroutine_handle<>> q_;
  bool stop_ = false;
  std::vector<std::thread> ts_;
};
}  // namespace coro
