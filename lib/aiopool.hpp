// Keeps libaio contexts of this process in a pool. The kernel takes tens of milliseconds (an RCU
// grace period) to destroy one, and their number is limited for the whole machine, so a harness
// that opens thousands of indexes would wait most of its time and could fail for lack of contexts
// that others hold. io_setup() is also where a harness injects "no more contexts".
#pragma once
#include <libaio.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cerrno>
#include <map>
#include <mutex>
#include <vector>

namespace vf_aio {
inline std::mutex mu;
inline std::vector<io_context_t> idle;
inline std::map<io_context_t, long> flying;  // requests submitted and not yet reaped
inline std::atomic<long> fail_setup{-1};     // >= 0: that many more setups succeed
inline std::atomic<long> fail_read{-1};      // >= 0: that many more reads succeed, then one fails
inline std::atomic<int> events{256};         // of each context; the machine has 65536 to share
inline std::atomic<int> fail_how{0};         // 0: EIO, 1: short, 2: nothing read
inline std::atomic<long> made{0}, reused{0}, submitted{0}, reaped{0}, failed_reads{0}, failed_setups{0},
    abandoned{0};  // requests in flight when their context was destroyed
inline void account(io_context_t c, long n) {
  std::lock_guard<std::mutex> g(mu);
  flying[c] += n;
}
}  // namespace vf_aio

extern "C" inline __attribute__((used)) int io_setup(int, io_context_t *out) {
  using namespace vf_aio;
  if (fail_setup >= 0 && fail_setup-- <= 0) return fail_setup = 0, ++failed_setups, -EAGAIN;
  {
    std::lock_guard<std::mutex> g(mu);
    if (!idle.empty()) {
      *out = idle.back(), idle.pop_back(), ++reused;
      return 0;
    }
  }
  *out = nullptr;
  long rc = -1;
  for (int i = 0; i < 300; i++) {  // others may hold the machine's contexts for a while
    rc = syscall(SYS_io_setup, events.load(), out);
    if (rc == 0 || errno != EAGAIN) break;
    timespec t{0, 100000000};
    nanosleep(&t, nullptr);
  }
  if (rc) return -errno;
  ++made;
  return 0;
}
extern "C" inline __attribute__((used)) int io_submit(io_context_t c, long n, iocb **cbs) {
  using namespace vf_aio;
  const long rc = syscall(SYS_io_submit, c, n, cbs);
  if (rc < 0) return -errno;
  submitted += rc, account(c, rc);
  return rc;
}
extern "C" inline __attribute__((used)) int io_getevents(io_context_t c, long min, long n, io_event *ev, timespec *t) {
  using namespace vf_aio;
  const long rc = syscall(SYS_io_getevents, c, min, n, ev, t);
  if (rc < 0) return -errno;
  reaped += rc, account(c, -rc);
  for (long i = 0; i < rc; i++)
    if (fail_read >= 0 && fail_read-- == 0) {
      ++failed_reads;
      ev[i].res = fail_how == 0 ? static_cast<unsigned long>(-EIO) : fail_how == 1 ? 512 : 0;
    }
  return rc;
}
extern "C" inline __attribute__((used)) int io_destroy(io_context_t c) {
  using namespace vf_aio;
  if (!c) return -EINVAL;
  long left;
  {
    std::lock_guard<std::mutex> g(mu);
    left = flying[c];
  }
  abandoned += left;
  io_event ev[64];
  while (left > 0) {  // as the kernel does: the buffers may go away afterwards
    const long rc = syscall(SYS_io_getevents, c, 1L, left < 64 ? left : 64L, ev, nullptr);
    if (rc < 0 && errno == EINTR) continue;
    if (rc < 0) break;
    left -= rc;
  }
  std::lock_guard<std::mutex> g(mu);
  flying[c] = 0;
  idle.push_back(c);
  return 0;
}
