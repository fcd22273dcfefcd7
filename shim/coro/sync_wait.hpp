#pragma once
#include <condition_variable>
#include <mutex>
#include "task.hpp"
namespace coro {
namespace detail {
struct sync_event {
  std::mutex m;
  std::condition_variable cv;
  bool set_ = false;
  void set() {
    std::lock_guard<std::mutex> g(m);
    set_ = true;
    cv.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return set_; });
  }
};
struct fire_task {
  struct promise_type {
    sync_event *ev = nullptr;
    auto get_return_object() {
      return fire_task{std::coroutine_handle<promise_type>::from_promise(*this)};
    }
    auto initial_suspend() noexcept { return std::suspend_always{}; }
    struct fin {
      auto await_ready() noexcept -> bool { return false; }
      void await_suspend(std::coroutine_handle<promise_type> h) noexcept { h.promise().ev->set(); }
      void await_resume() noexcept {}
    };
    auto final_suspend() noexcept { return fin{}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { std::terminate(); }
  };
  std::coroutine_handle<promise_type> h;
};
}  // namespace detail

template <typename A>
auto sync_wait(A &&a) -> decltype(auto) {
  using R = detail::await_result_t<A>;
  using RV = std::remove_cvref_t<R>;
  detail::sync_event ev;
  std::exception_ptr err;
  if constexpr (std::is_void_v<R>) {
    auto body = [&]() -> detail::fire_task {
      try {
        co_await std::forward<A>(a);
      } catch (...) {
        err = std::current_exception();
      }
    };
    auto t = body();
    t.h.promise().ev = &ev;
    t.h.resume();
    ev.wait();
    t.h.destroy();
    if (err) std::rethrow_exception(err);
  } else {
    std::optional<RV> out;
    auto body = [&]() -> detail::fire_task {
      try {
        out.emplace(co_await std::forward<A>(a));
      } catch (...) {
        err = std::current_exception();
      }
    };
    auto t = body();
    t.h.promise().ev = &ev;
    t.h.resume();
    ev.wait();
    t.h.destroy();
    if (err) std::rethrow_exception(err);
    return RV(std::move(*out));
  }
}
}  // namespace coro
