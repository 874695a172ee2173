#pragma once
#include <condition_variable>
#include <mutex>
#include "coro/task.hpp"

namespace coro {
namespace detail {
struct sync_event {
  std::mutex m;
  std::condition_variable cv;
  bool set = false;
  void fire() {
    std::lock_guard<std::mutex> g(m);
    set = true;
    cv.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return set; });
  }
};
struct sync_task {
  struct promise_type {
    sync_event *ev = nullptr;
    auto get_return_object() -> sync_task {
      return {std::coroutine_handle<promise_type>::from_promise(*this)};
    }
    auto initial_suspend() noexcept -> std::suspend_always { return {}; }
    struct fin {
      auto await_ready() const noexcept -> bool { return false; }
      void await_suspend(std::coroutine_handle<promise_type> h) noexcept { h.promise().ev->fire(); }
      void await_resume() const noexcept {}
    };
    auto final_suspend() noexcept -> fin { return {}; }
    void return_void() {}
    void unhandled_exception() { std::terminate(); }
  };
  std::coroutine_handle<promise_type> h;
};
}  // namespace detail
template <typename A>
auto sync_wait(A &&a) -> decltype(auto) {
  using R = decltype(std::forward<A>(a).operator co_await().await_resume());
  using V = std::remove_cvref_t<R>;
  std::exception_ptr ex;
  detail::sync_event ev;
  if constexpr (std::is_void_v<R>) {
    auto body = [&]() -> detail::sync_task {
      try {
        co_await std::forward<A>(a);
      } catch (...) {
        ex = std::current_exception();
      }
    };
    auto t = body();
    t.h.promise().ev = &ev;
    t.h.resume();
    ev.wait();
    t.h.destroy();
    if (ex) std::rethrow_exception(ex);
  } else {
    std::optional<V> out;
    auto body = [&]() -> detail::sync_task {
      try {
        out.emplace(co_await std::forward<A>(a));
      } catch (...) {
        ex = std::current_exception();
      }
    };
    auto t = body();
    t.h.promise().ev = &ev;
    t.h.resume();
    ev.wait();
    t.h.destroy();
    if (ex) std::rethrow_exception(ex);
    return V(std::move(*out));
  }
}
}  // namespace coro
