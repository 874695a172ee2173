#pragma once
#include <coroutine>
#include <deque>
#include <mutex>
#include "coro/task.hpp"
namespace coro {
class mutex;
class scoped_lock {
 public:
  explicit scoped_lock(mutex *m) : m_(m) {}
  scoped_lock(scoped_lock &&o) noexcept : m_(std::exchange(o.m_, nullptr)) {}
  ~scoped_lock() { unlock(); }
  inline void unlock();
 private:
  mutex *m_;
};
class mutex {
 public:
  struct op {
    mutex &m;
    auto await_ready() const noexcept -> bool { return false; }
    auto await_suspend(std::coroutine_handle<> h) -> bool {
      std::lock_guard<std::mutex> g(m.m_);
      if (!m.locked_) {
        m.locked_ = true;
        return false;
      }
      m.w_.push_back(h);
      return true;
    }
    auto await_resume() -> coro::scoped_lock { return coro::scoped_lock{&m}; }
  };
  auto scoped_lock() -> op { return op{*this}; }
  auto lock() -> op { return op{*this}; }
  void unlock() {
    std::coroutine_handle<> h;
    {
      std::lock_guard<std::mutex> g(m_);
      if (w_.empty()) {
        locked_ = false;
        return;
      }
      h = w_.front();
      w_.pop_front();
    }
    h.resume();
  }
 private:
  friend struct op;
  std::mutex m_;
  bool locked_ = false;
  std::deque<std::coroutine_handle<>> w_;
};
inline void scoped_lock::unlock() {
  if (m_) std::exchange(m_, nullptr)->unlock();
}
}  // namespace coro
