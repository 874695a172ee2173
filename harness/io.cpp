// L02: every reader and I/O engine delivers exactly the file's bytes, completes each request once and reports failures.
// io_pool.cpp builds the same file for the thread-pool reader.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <barrier>
#include <numeric>
#include <thread>
#include "vf.hpp"
#ifndef VF_POOL
#include "aiopool.hpp"
#endif
#include "index/graph/laser/utils/aligned_file_reader_factory.hpp"  // before liburing, whose headers define BLOCK_SIZE
#include <spdlog/spdlog.h>
#include "coro/sync_wait.hpp"
#include "coro/task.hpp"
#include "coro/thread_pool.hpp"
#include "coro/when_all.hpp"
#include "index/graph/diskann/diskann_index.hpp"
#include "storage/io/io_uring_engine.hpp"
#include "storage/io/uring_reactor.hpp"
#include "storage/mmap_file.hpp"
using namespace vf;
using namespace alaya;
using alaya::diskann::DiskANNBuildParams, alaya::diskann::DiskANNIndex, alaya::diskann::DiskANNLoadParams, alaya::diskann::DiskANNSearchParams;
using Vec = std::vector<float>;

// ---------------------------------------------------------------- pread faults (reader threads of the pool, blocking reads)
namespace flt {
inline std::atomic<long> after{-1};  // >= 0: that many more preads succeed, then one fails
inline std::atomic<int> how{0};
inline std::atomic<long> failed{0};
}  // namespace flt
extern "C" ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (flt::after >= 0 && flt::after-- == 0) {
    ++flt::failed;
    if (flt::how == 0) return errno = EIO, -1;
    return flt::how == 1 ? syscall(SYS_pread64, fd, b, n / 2, o) : 0;
  }
  return syscall(SYS_pread64, fd, b, n, o);
}
extern "C" ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }

static uint64_t word(uint64_t seed, uint64_t i) { return mix(seed * 0x9E3779B97F4A7C15ull + i); }
static char byte_at(uint64_t seed, uint64_t off) { return static_cast<char>(word(seed, off / 8) >> (8 * (off % 8))); }
static std::vector<char> content(uint64_t seed, size_t n) {
  std::vector<char> v((n + 7) / 8 * 8);
  for (size_t i = 0; i < v.size() / 8; ++i) {
    auto w = word(seed, i);
    memcpy(v.data() + i * 8, &w, 8);
  }
  v.resize(n);
  return v;
}
// position of the first byte that is not the file's, or n
static size_t first_wrong(const char *p, uint64_t seed, uint64_t off, size_t n) {
  for (size_t i = 0; i < n;) {
    if ((off + i) % 8 == 0 && i + 8 <= n) {
      auto w = word(seed, (off + i) / 8);
      if (memcmp(p + i, &w, 8) == 0) { i += 8; continue; }
    }
    if (p[i] != byte_at(seed, off + i)) return i;
    ++i;
  }
  return n;
}
// A file whose first `lo` bytes are a hole: what is read wraps at 2 or 4 GiB is then not the file's.
static uint64_t far_base(Rng &r) {
  if (!r.chance(0.35)) return 0;
  const uint64_t g = 1ull << 30, at[] = {2 * g, 4 * g, 4 * g - 65536, 2 * g - 65536, static_cast<uint64_t>(r.range(3, 14)) * g};
  count("far_files");
  return at[r.below(5)] + static_cast<uint64_t>(r.below(3)) * 4096;
}
static void lay(const fs::path &f, uint64_t seed, uint64_t lo, uint64_t size) {  // lo is a multiple of 8
  int fd = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  std::vector<char> v((size - lo + 7) / 8 * 8);
  for (size_t i = 0; i < v.size() / 8; ++i) {
    auto w = word(seed, lo / 8 + i);
    memcpy(v.data() + i * 8, &w, 8);
  }
  const size_t n = static_cast<size_t>(size - lo);
  for (size_t d = 0; d < n;) {
    auto k = syscall(SYS_pwrite64, fd, v.data() + d, n - d, lo + d);
    if (k <= 0) perror("lay"), abort();
    d += static_cast<size_t>(k);
  }
  ::close(fd);
}
struct Arena {  // aligned memory with a canary after every piece
  char *p;
  size_t n, used = 0;
  std::vector<std::pair<char *, size_t>> canaries;
  explicit Arena(size_t bytes) : n(bytes) { p = static_cast<char *>(std::aligned_alloc(4096, (bytes + 4095) / 4096 * 4096)); memset(p, 0x5c, n); }
  Arena(const Arena &) = delete;
  ~Arena() { free(p); }
  char *take(size_t bytes, size_t align) {
    char *r = p + used;
    canaries.push_back({r + bytes, align});
    memset(r + bytes, 0x5c, align);
    used += bytes + align;
    if (used > n) abort();
    return r;
  }
  bool intact() const {
    for (auto &[c, k] : canaries)
      for (size_t i = 0; i < k; ++i) if (c[i] != 0x5c) return false;
    return true;
  }
};
static size_t sector = 4096;  // what this file system takes for direct I/O
static void find_sector(const fs::path &f) {
  int fd = ::open(f.c_str(), O_RDONLY | O_DIRECT);
  if (fd < 0) return;
  char *b = static_cast<char *>(std::aligned_alloc(4096, 4096));
  if (syscall(SYS_pread64, fd, b + 512, 512, 512) == 512) sector = 512;
  free(b), ::close(fd);
}

// ---------------------------------------------------------------- aligned readers
static void one_thread(AlignedFileReader &rd, uint64_t seed, uint64_t lo, uint64_t size, Rng r, int t, uint64_t rounds) {
  rd.register_thread();
  auto *ctx = &rd.get_ctx();
  std::vector<AlignedReadEvent> ev;
  const uint64_t first = lo / sector, last = size / sector;  // whole sectors in the file
  for (uint64_t k = 0; k < rounds; ++k) {
    const bool beyond = r.chance(0.15), big = r.chance(0.05);
    const uint64_t n = big ? r.range(200, 1024) : r.range(1, 40), maxs = big ? 1 : 6;
    Arena a(n * (maxs + 1) * sector + 4096);
    std::vector<AlignedRead> rq;
    for (uint64_t i = 0; i < n; ++i) {
      uint64_t len = r.range(1, maxs), at = first + r.below(last - first);
      if (at + len > last && !beyond) len = 1;
      if (beyond && i == n / 2) at = last - (r.chance(0.5) ? 0 : std::min<uint64_t>(len - 1, last - first)), len = std::max<uint64_t>(len, 1);
      rq.emplace_back(at * sector, len * sector, k << 20 | i, a.take(len * sector, sector));
    }
    auto avail = [&](const AlignedRead &q) { return q.offset >= size ? 0 : std::min<uint64_t>(q.len, size - q.offset); };
    const bool all_there = std::all_of(rq.begin(), rq.end(), [&](auto &q) { return avail(q) == q.len; });
    Hash h;
    h.add(n), h.add(static_cast<uint64_t>(t)), h.add(seed), h.add(k);
    if (r.chance(0.45)) {
      bool failed = false;
      try {
        rd.read(rq, *ctx);
      } catch (const std::exception &) { failed = true; }
      VF_CHECK(failed == !all_there, "read:reported", failed ? "a read within the file is refused" : "a read past the end of the file is not reported", " size=", size, " requests=", n);
      if (!failed)
        for (auto &q : rq) {
          auto w = first_wrong(static_cast<char *>(q.buf), seed, q.offset, avail(q));
          VF_CHECK(w == avail(q), "read:bytes", "byte ", w, " of a read of ", q.len, " at ", q.offset, " is not the file's");
          if (w != avail(q)) return;
        }
      count(failed ? "refused_reads" : "blocking_reads", n);
    } else {
      std::map<uint64_t, size_t> open;
      const uint64_t groups = r.range(1, 3);
      uint64_t given = 0, done = 0;
      const bool poll = r.chance(0.5);
      auto take = [&](int want) {
        const int got = poll ? rd.poll_events(*ctx, want, ev) : rd.get_events(*ctx, want, ev);
        VF_CHECK(static_cast<size_t>(got) == ev.size() && got <= want && (poll || got == want), "events:count", got, " events reported, ", ev.size(), " delivered, ", want, " asked for");
        for (auto &e : ev) {
          auto it = open.find(e.id);
          VF_CHECK(it != open.end(), "events:once", "request ", e.id & 0xfffff, " completes twice or without having been submitted");
          if (it == open.end()) continue;
          auto &q = rq[it->second];
          VF_CHECK(e.result == static_cast<int64_t>(avail(q)), "events:result", "a read of ", q.len, " at ", q.offset, " of ", size, " reports ", e.result);
          auto w = first_wrong(static_cast<char *>(q.buf), seed, q.offset, avail(q));
          VF_CHECK(w == avail(q), "events:bytes", "byte ", w, " of a read of ", q.len, " at ", q.offset, " is not the file's when its completion arrives");
          open.erase(it), ++done;
          if (avail(q) < q.len) count("short_reads");
        }
        return got;
      };
      for (uint64_t g = 0; g < groups; ++g) {
        std::vector<AlignedRead> part(rq.begin() + static_cast<long>(n * g / groups), rq.begin() + static_cast<long>(n * (g + 1) / groups));
        if (part.empty()) continue;
        for (uint64_t i = n * g / groups; i < n * (g + 1) / groups; ++i) open[rq[i].id] = i;
        const int s = rd.submit_reqs(part, *ctx);
        VF_CHECK(s == static_cast<int>(part.size()), "submit:count", s, " of ", part.size(), " requests accepted");
        given += part.size();
        if (r.chance(0.5)) take(static_cast<int>(r.range(1, given - done)));
      }
      for (const auto t0 = std::chrono::steady_clock::now(); !open.empty() && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(30);) {
        const uint64_t left = given - done;
        if (take(static_cast<int>(r.chance(0.5) ? left : r.range(1, left))) == 0) std::this_thread::yield();
      }
      VF_CHECK(open.empty(), "events:all", open.size(), " of ", n, " requests never complete");
      if (!open.empty()) return;
      VF_CHECK(rd.poll_events(*ctx, 16, ev) == 0 && ev.empty(), "events:extra", "more completions than requests");
      h.add(groups), h.add(poll);
      count("async_reads", n), count(poll ? "polled_batches" : "awaited_batches");
    }
    VF_CHECK(a.intact(), "read:outside", "memory outside the buffers changed");
    eval(), distinct(h.get());
    if (r.chance(0.03)) {
      rd.deregister_thread();
      rd.register_thread(), ctx = &rd.get_ctx();
      count("reregistrations");
    }
  }
  if (r.chance(0.7)) rd.deregister_thread();
}
static void readers(uint64_t id, Rng &r) {
  Tmp tmp;
  const uint64_t seed = r.next();
  auto f = tmp.p / "data";
  const uint64_t lo = far_base(r);
  uint64_t size = lo + r.range(1, 400) * 4096;
  if (r.chance(0.4)) size += r.range(1, 4095);
  lay(f, seed, lo, size);
  find_sector(f);
  if (id == 0) sample(cat("a file of ", size, " bytes, sectors of ", sector));
  auto rd = make_aligned_file_reader();
  const int nt = static_cast<int>(r.range(1, 6));
  for (int life = 0, lives = static_cast<int>(r.range(1, 2)); life < lives; ++life) {
    rd->open(f.string());
    std::vector<std::thread> ts;
    const uint64_t rounds = tiered(40, 60);
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t, s = r.next()] {
      try {
        one_thread(*rd, seed, lo, size, Rng(s), t, rounds);
      } catch (const std::exception &e) { violation("readers:exception", cat("a reader thread ends with ", e.what())); }
    });
    for (auto &t : ts) t.join();
    rd->close();
    rd->deregister_all_threads();
    count("reader_lives"), count("reader_threads", static_cast<uint64_t>(nt));
  }
  // misuse is refused
  bool threw = false;
  try {
    rd->open((tmp.p / "missing").string());
  } catch (const std::exception &) { threw = true; }
  VF_CHECK(threw, "open:missing", "opening a file that does not exist succeeds");
  rd->open(f.string());
  rd->register_thread();
  Arena a(8 * 4096);
  std::vector<AlignedRead> many(1025, AlignedRead(0, sector, 1, a.take(sector, sector)));
  threw = false;
  try {
    rd->submit_reqs(many, rd->get_ctx());
  } catch (const std::exception &) { threw = true; }
  std::vector<AlignedReadEvent> ev;
  VF_CHECK(threw && rd->poll_events(rd->get_ctx(), 8, ev) == 0, "submit:too-many", "1025 requests at once are accepted");
  rd->deregister_thread();
  rd->close();
  count("misuses");
}
// ---------------------------------------------------------------- I/O engines
static void engine_thread(IOEngine &e, const fs::path &f, uint64_t seed, uint64_t lo, uint64_t size, Rng r, uint64_t rounds) {
  int fd = ::open(f.c_str(), O_RDWR);
  for (uint64_t k = 0; k < rounds; ++k) {
    const uint64_t n = r.chance(0.2) ? r.range(40, 400) : r.range(1, 30);
    Arena a(n * 3200 + 4096);
    std::vector<IORequest> rq;
    for (uint64_t i = 0; i < n; ++i) {
      uint64_t len = r.range(1, 3000), off = lo + r.below(size - lo + (r.chance(0.1) ? 4000 : 0));
      rq.emplace_back(a.take(len, 64), len, off, reinterpret_cast<void *>(i));
    }
    auto avail = [&](const IORequest &q) { return static_cast<int64_t>(q.offset_ >= size ? 0 : std::min<uint64_t>(q.size_, size - q.offset_)); };
    Hash h;
    h.add(n), h.add(k), h.add(seed);
    if (r.chance(0.35) && e.supports_async()) {
      struct Cb { IORequest *q; int64_t res = -1000000; int fired = 0; };
      std::vector<Cb> cb(n);
      uint64_t in = 0, out = 0;
      bool ok = true;
      for (uint64_t i = 0; i < n && ok; ++i) {
        cb[i].q = &rq[i];
        ok = e.submit_async_read(fd, rq[i].buffer_, rq[i].size_, rq[i].offset_, [](void *p, int32_t res) { auto *c = static_cast<Cb *>(p); c->res = res, ++c->fired; }, &cb[i]);
        in += ok;
        if (r.chance(0.3)) out += e.check_completion();
      }
      VF_CHECK(ok, "engine:async-submit", "an asynchronous read is refused after ", in, " others");
      const bool drain = r.chance(0.5);
      if (drain) e.drain_pending();
      else
        for (const auto t0 = std::chrono::steady_clock::now(); out < in && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(30);) {
          const size_t c = e.check_completion();
          if (out += c; !c) std::this_thread::yield();  // a busy machine may take its time
        }
      VF_CHECK(drain || out == in, "engine:async-count", out, " completions reported for ", in, " reads");
      for (uint64_t i = 0; i < in; ++i) {
        VF_CHECK(cb[i].fired == 1, "engine:async-once", "a completion is called ", cb[i].fired, " times");
        VF_CHECK(cb[i].res == avail(rq[i]), "engine:async-result", "a read of ", rq[i].size_, " at ", rq[i].offset_, " of ", size, " reports ", cb[i].res);
        if (cb[i].fired == 1 && cb[i].res == avail(rq[i])) {
          auto w = first_wrong(static_cast<char *>(rq[i].buffer_), seed, rq[i].offset_, static_cast<size_t>(avail(rq[i])));
          VF_CHECK(w == static_cast<size_t>(avail(rq[i])), "engine:async-bytes", "byte ", w, " of an asynchronous read is not the file's");
        }
      }
      count("callback_reads", in);
    } else {
      const size_t s = e.submit_reads(fd, rq);
      size_t done = 0;
      if (e.supports_async()) {
        VF_CHECK(s == n, "engine:submit", s, " of ", n, " reads submitted");
        while (done < s) {
          const size_t want = r.range(0, s - done), got = e.wait(want, r.chance(0.3) ? 1000 : -1);
          VF_CHECK(got >= want && got <= s - done, "engine:wait", "waiting for ", want, " of ", s - done, " completions returns ", got);
          if (got > s - done || (want > 0 && got == 0)) break;
          done += got;
        }
      } else {
        size_t nonempty = 0;
        for (auto &q : rq) nonempty += avail(q) > 0;
        VF_CHECK(s == nonempty, "engine:submit", s, " reads done, ", nonempty, " have data");
      }
      for (auto &q : rq) {
        VF_CHECK(q.result_ == avail(q), "engine:result", "a read of ", q.size_, " at ", q.offset_, " of ", size, " reports ", q.result_);
        VF_CHECK(q.is_success() == (avail(q) == static_cast<int64_t>(q.size_)), "engine:success", "a read of ", q.size_, " that got ", q.result_, " says success=", q.is_success());
        if (q.result_ != avail(q)) break;
        auto w = first_wrong(static_cast<char *>(q.buffer_), seed, q.offset_, static_cast<size_t>(avail(q)));
        VF_CHECK(w == static_cast<size_t>(avail(q)), "engine:bytes", "byte ", w, " of a read of ", q.size_, " at ", q.offset_, " is not the file's");
      }
      count("batched_reads", n);
    }
    VF_CHECK(a.intact(), "engine:outside", "memory outside the buffers changed");
    eval(), distinct(h.get());
    if (r.chance(0.1)) {  // a descriptor that is not open for reading
      int w = ::open(f.c_str(), O_WRONLY);
      IORequest q(a.p, 8, 0);
      std::span<IORequest> one(&q, 1);
      auto s = e.submit_reads(w, one);
      if (e.supports_async() && s) e.wait(s, -1);
      VF_CHECK(q.result_ < 0 && !q.is_success(), "engine:error", "a failing read reports ", q.result_);
      ::close(w);
      count("failing_reads");
    }
  }
  ::close(fd);
}
static void engine_writes(IOEngine &e, const Tmp &tmp, Rng &r, int t) {
  auto f = tmp.p / cat("w", t);
  int fd = ::open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  const uint64_t n = r.range(1, 300), seed = r.next(), lo = far_base(r);
  std::vector<uint64_t> cut{0};
  for (uint64_t i = 0; i < n; ++i) cut.push_back(cut.back() + r.range(1, 900));
  auto all = content(seed, cut.back());
  std::vector<IORequest> rq;
  for (uint64_t i = 0; i < n; ++i) rq.emplace_back(all.data() + cut[i], cut[i + 1] - cut[i], lo + cut[i]);
  for (uint64_t i = n; i-- > 1;) std::swap(rq[i], rq[r.below(i + 1)]);
  auto s = e.submit_writes(fd, rq);
  size_t done = 0;
  while (e.supports_async() && done < s) {
    auto g = e.wait(s - done, -1);
    if (!g) break;
    done += g;
  }
  bool ok = s == n;
  for (auto &q : rq) ok &= q.is_success();
  VF_CHECK(ok, "engine:write-result", "a write to a regular file is not reported as done");
  std::vector<char> got(all.size());
  const bool there = fs::file_size(f) == lo + all.size() && syscall(SYS_pread64, fd, got.data(), got.size(), lo) == static_cast<long>(got.size());
  ::close(fd);
  VF_CHECK(there && got == all, "engine:write-bytes", "a file written in ", n, " pieces holds other bytes");
  count("batched_writes", n);
}
static void engines(uint64_t id, Rng &r) {
  Tmp tmp;
  const uint64_t seed = r.next(), lo = far_base(r), size = lo + r.range(1, 200000);
  auto f = tmp.p / "data";
  lay(f, seed, lo, size);
  std::unique_ptr<IOEngine> e;
  const bool uring = !getenv("VF_NO_URING") && IOUringEngine::is_available();
  if (id == 0 && !uring) sample("no io_uring here");
  if (uring && r.chance(0.75)) e = std::make_unique<IOUringEngine>(size_t{1} << r.range(2, 7));
  else e = std::make_unique<SyncEngine>();
  const int nt = static_cast<int>(r.range(1, 5));
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t) ts.emplace_back([&, t, s = r.next()] {
    Rng q(s);
    engine_thread(*e, f, seed, lo, size, Rng(q.next()), tiered(15, 25));
    engine_writes(*e, tmp, q, t);
  });
  for (auto &t : ts) t.join();
  count(e->supports_async() ? "uring_engines" : "blocking_engines");
}
// ---------------------------------------------------------------- reactor
static std::atomic<uint64_t> reactor_reads;
static coro::task<void> wave(UringReactor &re, coro::thread_pool &pool, int fd, int bad, uint64_t seed, uint64_t lo, uint64_t size, Rng r, uint64_t rounds) {
  co_await pool.schedule();
  for (uint64_t k = 0; k < rounds; ++k) {
    const uint64_t n = r.chance(0.2) ? r.range(100, 700) : r.range(1, 40);
    Arena a(n * 1100 + 4096);
    std::vector<IORequest> rq;
    const bool failing = r.chance(0.05);
    for (uint64_t i = 0; i < n; ++i) {
      uint64_t len = r.range(1, 1000);
      rq.emplace_back(a.take(len, 32), len, lo + r.below(size - lo + (r.chance(0.1) ? 3000 : 0)));
    }
    auto avail = [&](const IORequest &q) { return static_cast<int64_t>(q.offset_ >= size ? 0 : std::min<uint64_t>(q.size_, size - q.offset_)); };
    uint32_t bads;
    if (n == 1 && r.chance(0.5)) {
      rq[0].result_ = co_await re.read(pool, failing ? bad : fd, rq[0].buffer_, static_cast<uint32_t>(rq[0].size_), rq[0].offset_);
      bads = rq[0].result_ != static_cast<int64_t>(rq[0].size_);
      count("reactor_single_reads");
    } else bads = co_await re.read_batch(pool, failing ? bad : fd, rq.data(), static_cast<uint32_t>(n));
    uint32_t expect = 0;
    for (auto &q : rq) {
      if (failing) { ++expect; VF_CHECK(q.result_ < 0, "reactor:error", "a failing read reports ", q.result_); continue; }
      expect += avail(q) != static_cast<int64_t>(q.size_);
      VF_CHECK(q.result_ == avail(q), "reactor:result", "a read of ", q.size_, " at ", q.offset_, " of ", size, " reports ", q.result_);
      if (q.result_ != avail(q)) break;
      auto w = first_wrong(static_cast<char *>(q.buffer_), seed, q.offset_, static_cast<size_t>(avail(q)));
      VF_CHECK(w == static_cast<size_t>(avail(q)), "reactor:bytes", "byte ", w, " of a read of ", q.size_, " at ", q.offset_, " is not the file's");
    }
    VF_CHECK(bads == expect, "reactor:failures", bads, " failed reads reported, ", expect, " are");
    VF_CHECK(a.intact(), "reactor:outside", "memory outside the buffers changed");
    reactor_reads += n;
    Hash h;
    h.add(n), h.add(k), h.add(seed), h.add(bads);
    eval(), distinct(h.get()), count(failing ? "reactor_failing_waves" : "reactor_waves");
  }
}
static void reactor(uint64_t, Rng &r) {
  if (getenv("VF_NO_URING") || !UringReactor::is_available()) return eval(), count("no_reactor");
  Tmp tmp;
  const uint64_t seed = r.next(), lo = far_base(r), size = lo + r.range(1, 300000);
  auto f = tmp.p / "data";
  lay(f, seed, lo, size);
  int fd = ::open(f.c_str(), O_RDONLY), bad = ::open(f.c_str(), O_WRONLY);
  {
    UringReactor re(1u << r.range(2, 9));
    coro::thread_pool pool{{.thread_count = static_cast<uint32_t>(r.range(1, 4))}};
    std::vector<coro::task<void>> ws;
    for (uint64_t i = 0, n = r.range(1, 12); i < n; ++i) ws.push_back(wave(re, pool, fd, bad, seed, lo, size, Rng(r.next()), tiered(8, 16)));
    reactor_reads = 0;
    coro::sync_wait(coro::when_all(std::move(ws)));
    count("reactor_reads", reactor_reads);
  }
  ::close(fd), ::close(bad);
}
// ---------------------------------------------------------------- mapped files
// only those that show something under `dir`: other threads open and close files of their own meanwhile
static size_t open_files(const fs::path &dir) {
  size_t n = 0;
  const auto under = fs::absolute(dir).lexically_normal().string() + "/";
  for (auto &e : fs::directory_iterator("/proc/self/fd")) {
    std::error_code ec;
    n += fs::read_symlink(e.path(), ec).string().starts_with(under);
  }
  return n;
}
static bool mapped(const std::string &what) {
  std::ifstream in("/proc/self/maps");
  for (std::string l; std::getline(in, l);) if (l.find(what) != std::string::npos) return true;
  return false;
}
static void maps(uint64_t, Rng &r) {
  Tmp tmp;
  const uint64_t seed = r.next(), size = r.chance(0.3) ? r.range(1, 20) * 4096 : r.range(1, 70000);
  const std::string name = cat("mapped-", seed);
  auto f = tmp.p / name;
  spit(f, content(seed, size));
  const auto fds = open_files(tmp.p);
  {
    storage::MMapFile m = r.chance(0.5) ? storage::MMapFile(f) : storage::MMapFile::open(f);
    VF_CHECK(open_files(tmp.p) == fds, "map:descriptor", "a mapped file keeps a descriptor");
    auto good = [&](const storage::MMapFile &x, const char *when) {
      VF_CHECK(x.size() == size && x.data(), "map:size", when, ": size ", x.size(), " of ", size);
      if (x.size() != size || !x.data()) return;
      VF_CHECK(first_wrong(static_cast<const char *>(x.data()), seed, 0, size) == size, "map:bytes", when, ": other bytes than the file's");
    };
    good(m, "opened");
    bool threw = false;
    try {
      VF_CHECK(m.as<uint64_t>() == m.data(), "map:as", "a typed view starts elsewhere");
    } catch (const std::exception &) { threw = true; }
    VF_CHECK(threw == (size % 8 != 0), "map:as-size", "a typed view of ", size, " bytes is ", threw ? "refused" : "given");
    storage::MMapFile n(std::move(m));
    VF_CHECK(!m.data() && !m.size(), "map:moved", "a moved-from mapping still shows data");
    good(n, "moved");
    const uint64_t seed2 = r.next(), size2 = r.range(1, 9000);
    auto g = tmp.p / "other";
    spit(g, content(seed2, size2));
    storage::MMapFile o(g);
    VF_CHECK(o.size() == size2 && first_wrong(static_cast<const char *>(o.data()), seed2, 0, size2) == size2, "map:bytes", "other bytes than the file's");
    o = std::move(n);
    good(o, "move-assigned");
    VF_CHECK(!mapped((tmp.p / "other").string()), "map:leak", "the replaced mapping stays");
    auto &same = o;
    o = std::move(same);
    good(o, "assigned to itself");
    fs::remove(f);
    good(o, "with the file removed");
  }
  VF_CHECK(!mapped(name), "map:leak", "a mapping outlives its object");
  if (const uint64_t lo = far_base(r)) {
    const uint64_t end = lo + r.range(1, 70000);
    lay(tmp.p / "far", seed, lo, end);
    storage::MMapFile x(tmp.p / "far");
    VF_CHECK(x.size() == end, "map:size", "size ", x.size(), " of ", end);
    if (x.size() == end) VF_CHECK(first_wrong(static_cast<const char *>(x.data()) + lo, seed, lo, end - lo) == end - lo, "map:bytes", "other bytes than the file's beyond ", lo);
  }
  auto refused = [&](const fs::path &p, const char *what) {
    bool threw = false;
    try {
      storage::MMapFile x(p);
    } catch (const std::exception &) { threw = true; }
    VF_CHECK(threw, "map:refuse", what, " is mapped");
    VF_CHECK(open_files(tmp.p) == fds, "map:descriptor", "refusing ", what, " leaves a descriptor open");
  };
  refused(tmp.p / "missing", "a missing file"), refused(tmp.p, "a directory");
  spit(tmp.p / "empty", {});
  refused(tmp.p / "empty", "an empty file");
  fs::create_symlink(tmp.p / "other", tmp.p / "link");
  refused(tmp.p / "link", "a symbolic link");
  Hash h;
  h.add(size), h.add(seed);
  eval(), distinct(h.get()), count("mappings", 3), count("refused_mappings", 4);
}
// ---------------------------------------------------------------- failing reads under an index
static void faults(uint64_t id, Rng &r) {
  Tmp tmp;
  const uint64_t n = r.range(60, 300), dim = std::array<uint64_t, 4>{4, 16, 96, 700}[r.below(4)];
  Vec v(n * dim);
  for (auto &x : v) x = static_cast<float>(r.gauss());
  std::vector<uint64_t> lab(n);
  for (uint64_t i = 0; i < n; ++i) lab[i] = 1000 + i * 3;
  DiskANNBuildParams bp;
  bp.R = 12, bp.L = 40, bp.num_threads = 1, bp.cache_ratio = r.chance(0.5) ? 0 : 0.2f;
  const bool pq = dim % 4 == 0 && n >= 256 && r.chance(0.5);
  bp.pq_n_chunks = pq ? static_cast<uint32_t>(dim / 4) : 0, bp.pq_train_iters = 2;
  auto dir = (tmp.p / "ix").string();
  DiskANNIndex::build(dir, v.data(), lab.data(), n, dim, bp);
  DiskANNLoadParams lp;
  lp.num_threads = static_cast<uint32_t>(r.range(1, 3));
  lp.scratch_search_list_size = static_cast<uint32_t>(n);
  DiskANNIndex x;
#ifndef VF_POOL
  // no contexts left: an error each time, and a load afterwards works
  for (long k = 0; k < static_cast<long>(lp.num_threads); ++k) {
    bool threw = false;
    vf_aio::fail_setup = k;
    try {
      x.load(dir, lp);
    } catch (const std::exception &) { threw = true; }
    vf_aio::fail_setup = -1;
    VF_CHECK(threw, "fault:setup", "an index is loaded although I/O context ", k, " could not be made");
    count("failed_setups");
  }
#endif
  x.load(dir, lp);
  auto exact = [&](const Vec &q, uint32_t k) {
    std::vector<std::pair<double, uint64_t>> a;
    for (uint64_t i = 0; i < n; ++i) {
      double d = 0;
      for (uint64_t j = 0; j < dim; ++j) d += (static_cast<double>(q[j]) - v[i * dim + j]) * (static_cast<double>(q[j]) - v[i * dim + j]);
      a.push_back({d, lab[i]});
    }
    std::sort(a.begin(), a.end());
    a.resize(k);
    return a;
  };
  uint64_t reach = 0;
  for (uint64_t k = 0; k < tiered(60, 120); ++k) {
    Vec q(dim);
    for (auto &f : q) f = static_cast<float>(r.gauss());
    DiskANNSearchParams sp;
    sp.search_list_size = static_cast<uint32_t>(n), sp.deterministic = r.chance(0.4), sp.rerank = pq, sp.rerank_count = static_cast<uint32_t>(n), sp.use_pq = pq;
    const uint32_t top = static_cast<uint32_t>(r.range(1, 20));
    const bool hurt = k % 2 == 0;
    const long at = static_cast<long>(r.chance(0.3) ? r.below(4) : r.below(n));
    const int how = static_cast<int>(r.below(3));
#ifdef VF_POOL
    auto &failed = flt::failed;
    if (hurt) flt::how = how, flt::after = at;
#else
    auto &failed = vf_aio::failed_reads;
    if (hurt) vf_aio::fail_how = how, vf_aio::fail_read = at;
#endif
    const long before = failed;
    std::vector<uint64_t> l(top, 7);
    Vec d(top, -1);
    bool threw = false;
    std::string why;
    uint32_t got = 0;
    try {
      got = x.search(q.data(), top, l.data(), d.data(), sp);
    } catch (const std::exception &e) { threw = true, why = e.what(); }
    const bool injected = failed != before;
#ifdef VF_POOL
    flt::after = -1;
#else
    vf_aio::fail_read = -1;
    long left = 0;
    {
      std::lock_guard<std::mutex> g(vf_aio::mu);
      for (auto &[c, m] : vf_aio::flying) left += m;
    }
    VF_CHECK(left == 0, "fault:in-flight", left, " reads are in flight after a search that ", threw ? "failed" : "ended");
#endif
    VF_CHECK(threw == injected, "fault:reported", threw ? cat("a search fails although every read succeeded: ", why) : std::string("a failed read is not reported"), " (", how == 0 ? "error" : how == 1 ? "short" : "nothing read", ") deterministic=", sp.deterministic, " pq=", pq);
    count(threw ? "failed_searches" : "good_searches");
    if (threw) continue;
    auto e = exact(q, top);
    std::set<uint64_t> want, have(l.begin(), l.begin() + got);
    for (auto &p : e) want.insert(p.second);
    // reachability of every node is not claimed for a fresh graph (N01): count, and judge what came back
    reach += want == have;
    for (uint32_t i = 0; i < got; ++i) {
      auto it = std::find(lab.begin(), lab.end(), l[i]);
      VF_CHECK(it != lab.end(), "fault:label", "label ", l[i], " is not in the index");
      if (it == lab.end()) continue;
      double t = 0;
      for (uint64_t j = 0; j < dim; ++j) { double u = static_cast<double>(q[j]) - v[static_cast<uint64_t>(it - lab.begin()) * dim + j]; t += u * u; }
      VF_CHECK(std::fabs(t - d[i]) <= 1e-3 * (1 + t), "fault:distance", "after a failed search a hit has distance ", d[i], ", true ", t, " pq=", pq);
    }
    count("full_answers", want == have);
    Hash h;
    h.add(k), h.add(n), h.add(dim), h.add(top), h.add(static_cast<uint64_t>(at));
    distinct(h.get()), eval();
  }
  VF_CHECK(reach * 10 >= tiered(60, 120) / 2 * 8, "fault:recall", "after failed searches only ", reach, " answers are the nearest ones");
  if (id == 0) sample(cat("DiskANN index of ", n, " vectors of dimension ", dim, pq ? " with codes" : ""));
}
int main(int argc, char **argv) {
  init(argc, argv);
  spdlog::set_level(spdlog::level::off);
  auto &m = ctx().mode;
#ifndef VF_POOL
  if (m == "readers") vf_aio::events = 1024;
#endif
  if (m == "readers") cases("readers", tiered(24, 300), readers);
  else if (m == "engines") cases("engines", tiered(60, 800), engines);
  else if (m == "reactor") cases("reactor", tiered(50, 600), reactor);
  else if (m == "maps") cases("maps", tiered(150, 3000), maps);
  else if (m == "faults") cases("faults", tiered(16, 250), faults);
  return finish();
}
