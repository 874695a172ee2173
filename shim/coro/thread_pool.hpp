#pragma once
#include <atomic>
#include <condition_variable>
#include <coroutine>
#include <cstdint>
#include <deque>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>
#include "coro/task.hpp"

namespace coro {
class thread_pool {
 public:
  struct options {
    uint32_t thread_count = std::thread::hardware_concurrency();
    std::function<void(std::size_t)> on_thread_start_functor = nullptr;
    std::function<void(std::size_t)> on_thread_stop_functor = nullptr;
  };
  explicit thread_pool(options o) : opts_(std::move(o)) {
    for (uint32_t i = 0; i < opts_.thread_count; ++i) {
      threads_.emplace_back([this, i] { run(i); });
    }
  }
  thread_pool(const thread_pool &) = delete;
  auto operator=(const thread_pool &) -> thread_pool & = delete;
  virtual ~thread_pool() { shutdown(); }

  auto thread_count() const noexcept -> size_t { return opts_.thread_count; }

  struct operation {
    thread_pool &tp_;
    auto await_ready() const noexcept -> bool { return false; }
    void await_suspend(std::coroutine_handle<> h) { tp_.push(h); }
    void await_resume() const noexcept {}
  };
  [[nodiscard]] auto schedule() -> operation {
    if (stop_.load(std::memory_order_acquire)) {
      throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
    }
    return operation{*this};
  }
  [[nodiscard]] auto yield() -> operation { return schedule(); }
  auto resume(std::coroutine_handle<> h) -> bool {
    if (!h || h.done()) return false;
    if (stop_.load(std::memory_order_acquire)) return false;
    push(h);
    return true;
  }
  void shutdown() noexcept {
    if (!stop_.exchange(true)) {
      {
        std::lock_guard<std::mutex> g(m_);
        cv_.notify_all();
      }
      for (auto &t : threads_) {
        if (t.joinable()) t.join();
      }
    }
  }
  auto size() const noexcept -> size_t { return size_.load(); }
  auto empty() const noexcept -> bool { return size() == 0; }

 private:
  void push(std::coroutine_handle<> h) {
    size_.fetch_add(1);
    std::lock_guard<std::mutex> g(m_);
    q_.push_back(h);
    cv_.notify_one();
  }
  void run(std::size_t idx) {
    if (opts_.on_thread_start_functor) opts_.on_thread_start_functor(idx);
    for (;;) {
      std::coroutine_handle<> h;
      {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [&] { return !q_.empty() || stop_.load(); });
        if (q_.empty()) break;
        h = q_.front();
        q_.pop_front();
      }
      h.resume();
      size_.fetch_sub(1);
    }
    if (opts_.on_thread_stop_functor) opts_.on_thread_stop_functor(idx);
  }
  options opts_;
  std::atomic<bool> stop_{false};
  std::atomic<size_t> size_{0};
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<std::coroutine_handle<>> q_;
  std::vector<std::thread> threads_;
};
}  // namespace coro
