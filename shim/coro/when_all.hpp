#pragma once
#include <atomic>
#include <vector>
#include "coro/task.hpp"

// As in libcoro, an exception thrown by a child is kept in its slot and rethrown by return_value() only.
namespace coro {
namespace detail {
struct when_all_latch {
  std::atomic<size_t> count;
  std::coroutine_handle<> waiter{nullptr};
  explicit when_all_latch(size_t n) : count(n + 1) {}
  auto arrive() -> bool { return count.fetch_sub(1, std::memory_order_acq_rel) == 1; }
};
}  // namespace detail
template <typename T>
struct when_all_slot {
  std::optional<std::conditional_t<std::is_void_v<T>, char, T>> value_;
  std::exception_ptr ex_;
  auto return_value() -> decltype(auto) {
    if (ex_) std::rethrow_exception(ex_);
    if constexpr (!std::is_void_v<T>) return *value_;
  }
};
namespace detail {
struct when_all_runner {
  struct promise_type {
    when_all_latch *latch = nullptr;
    auto get_return_object() -> when_all_runner {
      return when_all_runner{std::coroutine_handle<promise_type>::from_promise(*this)};
    }
    auto initial_suspend() noexcept -> std::suspend_always { return {}; }
    struct fin {
      auto await_ready() const noexcept -> bool { return false; }
      auto await_suspend(std::coroutine_handle<promise_type> h) noexcept -> std::coroutine_handle<> {
        auto *l = h.promise().latch;
        return l->arrive() ? l->waiter : std::noop_coroutine();
      }
      void await_resume() const noexcept {}
    };
    auto final_suspend() noexcept -> fin { return {}; }
    void return_void() {}
    void unhandled_exception() { std::terminate(); }
  };
  std::coroutine_handle<promise_type> h;
  explicit when_all_runner(std::coroutine_handle<promise_type> hh) : h(hh) {}
  when_all_runner(when_all_runner &&o) noexcept : h(std::exchange(o.h, nullptr)) {}
  when_all_runner(const when_all_runner &) = delete;
  ~when_all_runner() {
    if (h) h.destroy();
  }
};
template <typename T>
auto run_when_all(task<T> &t, when_all_slot<T> &s) -> when_all_runner {
  try {
    if constexpr (std::is_void_v<T>) {
      co_await std::move(t);
      s.value_.emplace(0);
    } else {
      s.value_.emplace(co_await std::move(t));
    }
  } catch (...) {
    s.ex_ = std::current_exception();
  }
}
}  // namespace detail
template <typename T>
class when_all_awaitable {
 public:
  explicit when_all_awaitable(std::vector<task<T>> ts) : tasks_(std::move(ts)), slots_(tasks_.size()) {}
  when_all_awaitable(when_all_awaitable &&) noexcept = default;
  struct awaiter {
    when_all_awaitable &a;
    detail::when_all_latch latch;
    std::vector<detail::when_all_runner> runners;
    explicit awaiter(when_all_awaitable &aa) : a(aa), latch(aa.tasks_.size()) {}
    awaiter(const awaiter &) = delete;
    auto await_ready() const noexcept -> bool { return a.tasks_.empty(); }
    auto await_suspend(std::coroutine_handle<> h) -> bool {
      latch.waiter = h;
      runners.reserve(a.tasks_.size());
      for (size_t i = 0; i < a.tasks_.size(); ++i) {
        runners.push_back(detail::run_when_all<T>(a.tasks_[i], a.slots_[i]));
        runners.back().h.promise().latch = &latch;
      }
      for (auto &r : runners) r.h.resume();
      return !latch.arrive();
    }
    auto await_resume() -> std::vector<when_all_slot<T>> { return std::move(a.slots_); }
  };
  auto operator co_await() noexcept -> awaiter { return awaiter{*this}; }

 private:
  std::vector<task<T>> tasks_;
  std::vector<when_all_slot<T>> slots_;
};
template <typename T>
auto when_all(std::vector<task<T>> ts) -> when_all_awaitable<T> {
  return when_all_awaitable<T>(std::move(ts));
}
}  // namespace coro
