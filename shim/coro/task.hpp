// Minimal stand-in for libcoro's coro::task (libcoro itself is not available offline).
// Same observable contract: lazily started, continuation resumed by symmetric transfer,
// exceptions stored and rethrown to the awaiter.
#pragma once
#include <coroutine>
#include <exception>
#include <optional>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace coro {
template <typename T = void>
class task;

namespace detail {
struct promise_base {
  struct final_awaiter {
    auto await_ready() const noexcept -> bool { return false; }
    template <typename P>
    auto await_suspend(std::coroutine_handle<P> h) noexcept -> std::coroutine_handle<> {
      auto c = h.promise().continuation_;
      return c ? c : std::noop_coroutine();
    }
    void await_resume() noexcept {}
  };
  auto initial_suspend() noexcept { return std::suspend_always{}; }
  auto final_suspend() noexcept { return final_awaiter{}; }
  void continuation(std::coroutine_handle<> c) noexcept { continuation_ = c; }
  std::coroutine_handle<> continuation_{nullptr};
  std::exception_ptr exception_{};
};

template <typename T>
struct promise final : promise_base {
  auto get_return_object() noexcept -> task<T>;
  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
  template <typename U>
  void return_value(U &&v) {
    value_.emplace(std::forward<U>(v));
  }
  auto result() -> T {
    if (exception_) std::rethrow_exception(exception_);
    return std::move(*value_);
  }
  std::optional<T> value_;
};
template <>
struct promise<void> final : promise_base {
  auto get_return_object() noexcept -> task<void>;
  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
  void return_void() noexcept {}
  void result() {
    if (exception_) std::rethrow_exception(exception_);
  }
};
}  // namespace detail

template <typename T>
class [[nodiscard]] task {
 public:
  using promise_type = detail::promise<T>;
  using coroutine_handle = std::coroutine_handle<promise_type>;
  task() noexcept = default;
  explicit task(coroutine_handle h) : h_(h) {}
  task(const task &) = delete;
  task &operator=(const task &) = delete;
  task(task &&o) noexcept : h_(std::exchange(o.h_, nullptr)) {}
  task &operator=(task &&o) noexcept {
    if (this != &o) {
      if (h_) h_.destroy();
      h_ = std::exchange(o.h_, nullptr);
    }
    return *this;
  }
  ~task() {
    if (h_) h_.destroy();
  }
  auto is_ready() const noexcept -> bool { return !h_ || h_.done(); }
  auto resume() -> bool {
    if (!h_.done()) h_.resume();
    return !h_.done();
  }
  auto destroy() -> bool {
    if (h_) {
      h_.destroy();
      h_ = nullptr;
      return true;
    }
    return false;
  }
  struct awaiter {
    coroutine_handle h_;
    auto await_ready() const noexcept -> bool { return !h_ || h_.done(); }
    auto await_suspend(std::coroutine_handle<> c) noexcept -> std::coroutine_handle<> {
      h_.promise().continuation(c);
      return h_;
    }
    auto await_resume() -> decltype(auto) { return h_.promise().result(); }
  };
  auto operator co_await() const & noexcept { return awaiter{h_}; }
  auto operator co_await() const && noexcept { return awaiter{h_}; }
  auto promise() -> promise_type & { return h_.promise(); }
  auto handle() -> coroutine_handle { return h_; }

 private:
  coroutine_handle h_{nullptr};
};

namespace detail {
template <typename T>
auto promise<T>::get_return_object() noexcept -> task<T> {
  return task<T>{std::coroutine_handle<promise<T>>::from_promise(*this)};
}
inline auto promise<void>::get_return_object() noexcept -> task<void> {
  return task<void>{std::coroutine_handle<promise<void>>::from_promise(*this)};
}
template <typename A>
auto get_awaiter(A &&a) -> decltype(auto) {
  if constexpr (requires { std::forward<A>(a).operator co_await(); }) {
    return std::forward<A>(a).operator co_await();
  } else {
    return std::forward<A>(a);
  }
}
template <typename A>
using await_result_t = decltype(get_awaiter(std::declval<A>()).await_resume());
}  // namespace detail
}  // namespace coro
