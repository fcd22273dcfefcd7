#pragma once
#include <atomic>
#include <memory>
#include <tuple>
#include <vector>
#include "task.hpp"
namespace coro {
namespace detail {
// libcoro: when_all yields per-task results; exceptions surface only from return_value().
template <typename T>
struct when_all_result {
  std::exception_ptr err;
  std::conditional_t<std::is_void_v<T>, char, std::optional<T>> val{};
  auto return_value() -> T {
    if (err) std::rethrow_exception(err);
    if constexpr (!std::is_void_v<T>) return std::move(*val);
  }
};
struct latch {
  std::atomic<size_t> n;
  std::coroutine_handle<> c{nullptr};
  explicit latch(size_t k) : n(k + 1) {}
  void done() {
    if (n.fetch_sub(1, std::memory_order_acq_rel) == 1) c.resume();
  }
};
struct detached {
  struct promise_type {
    auto get_return_object() noexcept { return detached{}; }
    auto initial_suspend() noexcept { return std::suspend_never{}; }
    auto final_suspend() noexcept { return std::suspend_never{}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { std::terminate(); }
  };
};
template <typename T>
auto run_one(task<T> *t, when_all_result<T> *r, latch *l) -> detached {
  try {
    if constexpr (std::is_void_v<T>) {
      co_await *t;
    } else {
      r->val.emplace(co_await *t);
    }
  } catch (...) {
    r->err = std::current_exception();
  }
  l->done();
}
template <typename T>
struct when_all_vec {
  std::vector<task<T>> tasks;
  std::unique_ptr<latch> l;
  std::vector<when_all_result<T>> res;
  explicit when_all_vec(std::vector<task<T>> t)
      : tasks(std::move(t)), l(std::make_unique<latch>(tasks.size())), res(tasks.size()) {}
  auto await_ready() const noexcept -> bool { return tasks.empty(); }
  auto await_suspend(std::coroutine_handle<> c) -> bool {
    l->c = c;
    latch *lp = l.get();
    const size_t n = tasks.size();
    for (size_t i = 0; i < n; ++i) run_one(&tasks[i], &res[i], lp);
    return lp->n.fetch_sub(1, std::memory_order_acq_rel) != 1;
  }
  auto await_resume() -> std::vector<when_all_result<T>> { return std::move(res); }
};
}  // namespace detail
template <typename T>
auto when_all(std::vector<task<T>> tasks) {
  return detail::when_all_vec<T>(std::move(tasks));
}
template <typename... Ts>
  requires(sizeof...(Ts) > 0)
auto when_all(task<void> first, Ts... rest) {
  std::vector<task<void>> v;
  v.push_back(std::move(first));
  (v.push_back(std::move(rest)), ...);
  return detail::when_all_vec<void>(std::move(v));
}
}  // namespace coro
