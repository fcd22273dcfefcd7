#pragma once
#include <deque>
#include <mutex>
#include "task.hpp"
namespace coro {
class mutex {
 public:
  struct scoped {
    mutex *m;
    explicit scoped(mutex *p) : m(p) {}
    scoped(scoped &&o) noexcept : m(std::exchange(o.m, nullptr)) {}
    scoped(const scoped &) = delete;
    ~scoped() { unlock(); }
    void unlock() {
      if (m) std::exchange(m, nullptr)->unlock();
    }
  };
  struct op {
    mutex &m;
    std::coroutine_handle<> h{nullptr};
    auto await_ready() noexcept -> bool { return false; }
    auto await_suspend(std::coroutine_handle<> c) -> bool {
      std::lock_guard<std::mutex> g(m.i_);
      if (!m.locked_) {
        m.locked_ = true;
        return false;
      }
      m.w_.push_back(c);
      return true;
    }
    auto await_resume() { return scoped{&m}; }
  };
  auto lock() { return op{*this}; }
  auto scoped_lock() { return op{*this}; }
  void unlock() {
    std::coroutine_handle<> n;
    {
      std::lock_guard<std::mutex> g(i_);
      if (w_.empty()) {
        locked_ = false;
        return;
      }
      n = w_.front();
      w_.pop_front();
    }
    n.resume();
  }

 private:
  std::mutex i_;
  bool locked_ = false;
  std::deque<std::coroutine_handle<>> w_;
};
}  // namespace coro
