// Stand-in for the subset of libcoro 0.14.1 that AlayaLite uses (libcoro itself is not available offline).
// Semantics follow libcoro: tasks are lazy, final suspension transfers to the continuation symmetrically.
#pragma once
#include <coroutine>
#include <exception>
#include <optional>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <variant>

namespace coro {
template <typename T = void>
class task;
namespace detail {
struct promise_base {
  std::coroutine_handle<> continuation_{nullptr};
  struct final_awaiter {
    auto await_ready() const noexcept -> bool { return false; }
    template <typename P>
    auto await_suspend(std::coroutine_handle<P> h) noexcept -> std::coroutine_handle<> {
      auto c = h.promise().continuation_;
      return c ? c : std::noop_coroutine();
    }
    void await_resume() const noexcept {}
  };
  auto initial_suspend() noexcept -> std::suspend_always { return {}; }
  auto final_suspend() noexcept -> final_awaiter { return {}; }
  void continuation(std::coroutine_handle<> c) noexcept { continuation_ = c; }
};
template <typename T>
struct promise final : promise_base {
  std::optional<T> value_;
  std::exception_ptr ex_;
  auto get_return_object() noexcept -> task<T>;
  template <typename U>
  void return_value(U &&u) {
    value_.emplace(std::forward<U>(u));
  }
  void unhandled_exception() noexcept { ex_ = std::current_exception(); }
  auto result() & -> T & {
    if (ex_) std::rethrow_exception(ex_);
    return *value_;
  }
  auto result() && -> T && {
    if (ex_) std::rethrow_exception(ex_);
    return std::move(*value_);
  }
};
template <>
struct promise<void> final : promise_base {
  std::exception_ptr ex_;
  auto get_return_object() noexcept -> task<void>;
  void return_void() noexcept {}
  void unhandled_exception() noexcept { ex_ = std::current_exception(); }
  void result() {
    if (ex_) std::rethrow_exception(ex_);
  }
};
}  // namespace detail

template <typename T>
class [[nodiscard]] task {
 public:
  using promise_type = detail::promise<T>;
  using coroutine_handle = std::coroutine_handle<promise_type>;
  task() noexcept = default;
  explicit task(coroutine_handle h) : h_(h) {}
  task(const task &) = delete;
  task(task &&o) noexcept : h_(std::exchange(o.h_, nullptr)) {}
  ~task() {
    if (h_) h_.destroy();
  }
  auto operator=(const task &) -> task & = delete;
  auto operator=(task &&o) noexcept -> task & {
    if (this != &o) {
      if (h_) h_.destroy();
      h_ = std::exchange(o.h_, nullptr);
    }
    return *this;
  }
  auto is_ready() const noexcept -> bool { return !h_ || h_.done(); }
  auto resume() -> bool {
    if (!h_.done()) h_.resume();
    return !h_.done();
  }
  auto destroy() -> bool {
    if (h_) {
      h_.destroy();
      h_ = nullptr;
      return true;
    }
    return false;
  }
  struct awaiter_base {
    coroutine_handle h_;
    auto await_ready() const noexcept -> bool { return !h_ || h_.done(); }
    auto await_suspend(std::coroutine_handle<> c) noexcept -> std::coroutine_handle<> {
      h_.promise().continuation(c);
      return h_;
    }
  };
  auto operator co_await() const & noexcept {
    struct awaiter : awaiter_base {
      auto await_resume() -> decltype(auto) { return this->h_.promise().result(); }
    };
    return awaiter{{h_}};
  }
  auto operator co_await() const && noexcept {
    struct awaiter : awaiter_base {
      auto await_resume() -> T {
        if constexpr (std::is_void_v<T>) {
          this->h_.promise().result();
        } else {
          return std::move(this->h_.promise()).result();
        }
      }
    };
    return awaiter{{h_}};
  }
  auto promise() & -> promise_type & { return h_.promise(); }
  auto handle() -> coroutine_handle { return h_; }

 private:
  coroutine_handle h_{nullptr};
};
namespace detail {
template <typename T>
inline auto promise<T>::get_return_object() noexcept -> task<T> {
  return task<T>{std::coroutine_handle<promise<T>>::from_promise(*this)};
}
inline auto promise<void>::get_return_object() noexcept -> task<void> {
  return task<void>{std::coroutine_handle<promise<void>>::from_promise(*this)};
}
}  // namespace detail
}  // namespace coro
