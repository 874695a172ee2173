// X01: executors, queues, gates and locks: every task exactly once, waits cover all work, exclusion holds.
#include <sys/wait.h>
#include <coroutine>
#include <future>
#include <memory>
#include <thread>
#include "vf.hpp"
#include "coro/sync_wait.hpp"
#include "coro/task.hpp"
#include "coro/thread_pool.hpp"
#include "coro/when_all.hpp"
#include "executor/scheduler.hpp"
#include "executor/task_queue.hpp"
#include "index/graph/laser/utils/concurrent_queue.hpp"
#include "utils/coro_gate.hpp"
#include "utils/locks.hpp"
#include "utils/thread_pool.hpp"

using namespace vf;

static void nap(Rng &r) {
  switch (r.below(5)) {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); break;
    case 2: for (volatile int i = 0; i < 200; i = i + 1) {} break;
    default: break;
  }
}

// ---------------------------------------------------------------- thread pool
static void thread_pool(uint64_t, Rng &r) {
  size_t threads = 1 + r.below(8), rounds = 1 + r.below(4), producers = 1 + r.below(3), waiters = 1 + r.below(3);
  std::string script = cat(threads, " threads, ", producers, " producers, ", waiters, " waiters: ");
  Hash order;
  std::mutex omu;
  std::vector<std::pair<size_t, std::future<int>>> left;
  std::vector<std::unique_ptr<std::atomic<int>>> leftruns;
  {
    alaya::ThreadPool pool(threads);
    for (size_t round = 0; round < rounds; ++round) {
      size_t n = r.below(5) ? r.below(200) : 0, per = n / producers;
      n = per * producers;
      progress(cat("thread pool ", script, "n=", n));
      std::vector<std::atomic<int>> runs(n), done(n);
      std::vector<int> plain(n, 0);  // written without synchronisation: visible after the wait or it is a race
      std::vector<std::future<int>> fut(n);
      std::vector<std::thread> th;
      uint64_t s0 = r.next();
      std::atomic<int> running{0};
      for (size_t p = 0; p < producers; ++p)
        th.emplace_back([&, p] {
          Rng q(s0 + p);
          for (size_t i = p * per; i < (p + 1) * per; ++i) {
            uint64_t s = q.next();
            fut[i] = pool.enqueue([&, i, s](int x) {
              Rng q2(s);
              runs[i]++;
              running++;
              nap(q2);
              plain[i] += 1;
              { std::lock_guard<std::mutex> g(omu); order.add(static_cast<uint64_t>(i)); }
              running--;
              done[i]++;
              if (i % 7 == 3) throw std::runtime_error(cat("task ", i));
              return x + static_cast<int>(i);
            }, 1000);
            nap(q);
          }
        });
      // waiters wait for all of the round's tasks
      std::vector<std::thread> ws;
      std::atomic<int> woke{0};
      for (size_t w = 0; w < waiters; ++w)
        ws.emplace_back([&] {
          pool.wait_until_all_tasks_completed(n);
          for (size_t i = 0; i < n; ++i) VF_CHECK(done[i] == 1 && plain[i] == 1, "pool:wait", script, "wait returned while task ", i, " had run ", done[i].load(), " times");
          woke++;
        });
      for (auto &t : th) t.join();
      for (auto &t : ws) t.join();
      count("waits", waiters);
      for (size_t i = 0; i < n; ++i) {
        VF_CHECK(runs[i] == 1, "pool:once", script, "task ", i, " ran ", runs[i].load(), " times");
        bool threw = false;
        int v = -1;
        std::string what;
        try { v = fut[i].get(); } catch (const std::runtime_error &e) { threw = true, what = e.what(); }
        if (i % 7 == 3) VF_CHECK(threw && what == cat("task ", i), "pool:exception", script, "task ", i, " should report its own exception, got '", what, "'");
        else VF_CHECK(!threw && v == static_cast<int>(1000 + i), "pool:result", script, "task ", i, " result ", v);
      }
      eval(), count("tasks", n);
      pool.reset_task();
    }
    // work still queued at destruction is finished first
    size_t n = r.below(60);
    for (size_t i = 0; i < n; ++i) leftruns.push_back(std::make_unique<std::atomic<int>>(0));
    for (size_t i = 0; i < n; ++i) {
      auto *c = leftruns[i].get();
      uint64_t s = r.next();
      left.emplace_back(i, pool.enqueue([c, s] { Rng q(s); nap(q); return ++*c; }));
    }
  }
  for (auto &[i, f] : left) {
    bool ready = f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
    VF_CHECK(ready && *leftruns[i] == 1, "pool:shutdown", script, "task ", i, " queued at shutdown ran ", leftruns[i]->load(), " times");
  }
  count("tasks", left.size());
  distinct(order.add(static_cast<uint64_t>(threads)).get());
}

// ---------------------------------------------------------------- scheduler
struct Co {  // a coroutine started by whoever resumes it first
  struct promise_type {
    Co get_return_object() { return Co{std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { std::terminate(); }
  };
  std::coroutine_handle<promise_type> h;
};
struct TaskLog {
  std::atomic<int> inside{0}, steps{0}, finished{0};
  int plain = 0;
};
static Co job(TaskLog *t, int yields, int kind, alaya::Scheduler *s, uint64_t seed) {
  Rng q(seed);
  for (int i = 0; i < yields; ++i) {
    VF_CHECK(t->inside.fetch_add(1) == 0, "sched:exclusive", "a task is run by two workers at once");
    t->plain++;
    t->steps++;
    nap(q);
    t->inside--;
    if (kind == 0 || (kind == 2 && i % 2)) co_await std::suspend_always{};
    else co_await s->schedule();
  }
  VF_CHECK(t->inside.fetch_add(1) == 0, "sched:exclusive", "a task is run by two workers at once");
  t->plain++;
  t->steps++;
  t->finished++;
  t->inside--;
}
static Co spawner(TaskLog *t, alaya::Scheduler *s, std::vector<Co> *kids) {
  for (auto &k : *kids) {
    s->schedule(k.h);
    co_await std::suspend_always{};
  }
  t->steps++;
  t->finished++;
}
static void scheduler(uint64_t c, Rng &r) {
  size_t workers = 1 + r.below(8), n = c % 9 == 0 ? 0 : 1 + r.below(c % 5 ? 30 : 300);
  // schedule before the workers start (as batch search does), while they run (as the coroutine test does), or from a running task
  int when = static_cast<int>(c % 3);
  int kind = static_cast<int>(r.below(3));
  std::string script = cat(workers, " workers, ", n, " tasks scheduled ", when == 0 ? "before begin" : when == 1 ? "after begin" : "by a task", ", yield kind ", kind, ": ");
  std::vector<CpuID> cpus;
  for (size_t i = 0; i < workers; ++i) cpus.push_back(static_cast<CpuID>(i));
  std::vector<TaskLog> logs(n + 1);
  std::vector<int> ys(n);
  std::vector<Co> cos;
  {
    alaya::Scheduler s(cpus);
    for (size_t i = 0; i < n; ++i) {
      ys[i] = static_cast<int>(r.below(12));
      cos.push_back(job(&logs[i], ys[i], kind, &s, r.next()));
    }
    Co sp{};
    if (when == 0)
      for (auto &x : cos) s.schedule(x.h);
    if (when == 2) {
      sp = spawner(&logs[n], &s, &cos);
      s.schedule(sp.h);
    }
    progress("scheduler " + script);
    s.begin();
    if (when == 1) {
      if (r.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
      std::vector<std::thread> th;
      for (size_t p = 0; p < 2; ++p)
        th.emplace_back([&, p] { for (size_t i = p; i < n; i += 2) s.schedule(cos[i].h); });
      for (auto &t : th) t.join();
    }
    if (r.chance(0.8)) s.join();
  }
  for (size_t i = 0; i < n; ++i) {
    VF_CHECK(logs[i].finished == 1, "sched:once", script, "task ", i, " finished ", logs[i].finished.load(), " times");
    VF_CHECK(logs[i].steps == ys[i] + 1 && logs[i].plain == ys[i] + 1, "sched:steps", script, "task ", i, " made ", logs[i].steps.load(), " steps of ", ys[i] + 1);
    VF_CHECK(cos[i].h.done(), "sched:done", script, "task ", i, " is not done after join");
    count("steps", static_cast<uint64_t>(logs[i].steps.load()));
  }
  if (when == 2) VF_CHECK(logs[n].finished == 1, "sched:once", script, "the spawning task finished ", logs[n].finished.load(), " times");
  for (auto &x : cos)
    if (x.h.done()) x.h.destroy();
  eval(), count("tasks", n);
  distinct(Hash().add(script).add(r.next()).get());
}

// ---------------------------------------------------------------- queues
static void queues(uint64_t, Rng &r) {
  size_t producers = 1 + r.below(4), consumers = 1 + r.below(4), per = r.below(400);
  size_t n = producers * per;
  progress("queues");
  uint64_t s0 = r.next();
  Hash h;
  {
    alaya::TaskQueue q;
    std::vector<std::atomic<int>> got(n);
    std::atomic<size_t> total{0};
    std::atomic<int> unknown{0};
    std::vector<std::thread> th;
    for (size_t p = 0; p < producers; ++p)
      th.emplace_back([&, p] {
        Rng x(s0 + p);
        for (size_t i = 0; i < per; ++i) {
          q.push(std::coroutine_handle<>::from_address(reinterpret_cast<void *>((p * per + i + 1) * 16)));
          nap(x);
        }
      });
    for (size_t c = 0; c < consumers; ++c)
      th.emplace_back([&] {
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
        while (total < n && std::chrono::steady_clock::now() < end) {
          std::coroutine_handle<> x;
          if (!q.pop(x)) { std::this_thread::yield(); continue; }
          size_t v = reinterpret_cast<size_t>(x.address());
          if (v % 16 || v / 16 < 1 || v / 16 > n) unknown++;
          else got[v / 16 - 1]++;
          total++;
        }
      });
    for (auto &t : th) t.join();
    std::coroutine_handle<> x;
    VF_CHECK(!q.pop(x), "taskqueue:extra", "the queue still yields items after all were taken");
    VF_CHECK(unknown == 0, "taskqueue:invented", "the queue yielded handles nobody pushed");
    for (size_t i = 0; i < n; ++i) VF_CHECK(got[i] == 1, "taskqueue:once", "item ", i, " was taken ", got[i].load(), " times");
    eval();
  }
  {
    ConcurrentQueue<int> q(-7);
    VF_CHECK(q.pop() == -7 && q.empty(), "queue:empty", "an empty queue does not answer with its null value");
    std::vector<std::atomic<int>> got(n);
    std::atomic<size_t> total{0};
    std::atomic<int> disorder{0};
    std::vector<std::thread> th;
    for (size_t p = 0; p < producers; ++p)
      th.emplace_back([&, p] {
        Rng x(s0 + p);
        for (size_t i = 0; i < per;) {
          if (x.chance(0.3)) {
            std::vector<int> batch;
            for (size_t k = 0; k < 5 && i < per; ++k, ++i) batch.push_back(static_cast<int>(p * per + i));
            q.insert(batch.begin(), batch.end());
          } else {
            int v = static_cast<int>(p * per + i++);
            q.push(v);
          }
          if (x.chance(0.5)) q.push_notify_one(); else q.push_notify_all();
        }
      });
    for (size_t c = 0; c < consumers; ++c)
      th.emplace_back([&] {
        std::map<size_t, int> last;
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
        while (total < n && std::chrono::steady_clock::now() < end) {
          int v = q.pop();
          if (v == -7) { q.wait_for_push_notify(); continue; }
          got[static_cast<size_t>(v)]++;
          size_t p = static_cast<size_t>(v) / per;
          if (last.count(p) && last[p] > v) disorder++;
          last[p] = v;
          total++;
        }
      });
    for (auto &t : th) t.join();
    VF_CHECK(q.size() == 0, "queue:extra", "items left");
    VF_CHECK(disorder == 0, "queue:fifo", "a consumer saw a producer's items out of order");
    for (size_t i = 0; i < n; ++i) VF_CHECK(got[i] == 1, "queue:once", "item ", i, " was taken ", got[i].load(), " times");
    eval();
  }
  count("tasks", 2 * n);
  distinct(Hash().add(s0).add(static_cast<uint64_t>(n)).get());
}

// ---------------------------------------------------------------- gate
struct Item { std::atomic<int> users{0}; int plain = 0; };
static coro::task<int> gate_user(alaya::AsyncGate<Item> &g, coro::thread_pool &pool, int rounds, uint64_t seed, std::atomic<int> &bad, std::atomic<int> &uses) {
  co_await pool.schedule();
  Rng q(seed);
  for (int i = 0; i < rounds; ++i) {
    Item *it = co_await g.acquire(pool);
    if (!it) { bad++; continue; }
    if (it->users.fetch_add(1) != 0) bad++;
    it->plain++;
    nap(q);
    it->users--;
    uses++;
    g.release(it);
  }
  co_return rounds;
}
static void gate(uint64_t, Rng &r) {
  size_t items = 1 + r.below(4), tasks = 1 + r.below(24), threads = 1 + r.below(4);
  int rounds = static_cast<int>(1 + r.below(20));
  progress(cat("gate items=", items, " tasks=", tasks, " threads=", threads));
  std::vector<Item> it(items);
  alaya::AsyncGate<Item> g;
  for (auto &x : it) g.add(&x);
  std::atomic<int> bad{0}, uses{0};
  {
    auto pool = std::make_unique<coro::thread_pool>(coro::thread_pool::options{.thread_count = static_cast<uint32_t>(threads)});
    std::vector<coro::task<int>> ts;
    for (size_t i = 0; i < tasks; ++i) ts.push_back(gate_user(g, *pool, rounds, r.next(), bad, uses));
    auto res = coro::sync_wait(coro::when_all(std::move(ts)));
    int sum = 0;
    for (auto &x : res) sum += x.return_value();
    VF_CHECK(sum == rounds * static_cast<int>(tasks), "gate:lost", "tasks report ", sum, " turns");
  }
  int plain = 0;
  for (auto &x : it) plain += x.plain;
  VF_CHECK(bad == 0, "gate:exclusive", "an object was handed to two holders at once, or none was handed over, ", bad.load(), " times");
  VF_CHECK(uses == rounds * static_cast<int>(tasks) && plain == uses, "gate:lost", uses.load(), " turns, expected ", rounds * static_cast<int>(tasks));
  VF_CHECK(g.free_count() == items, "gate:conserve", g.free_count(), " objects free after use of ", items);
  g.clear();
  VF_CHECK(g.free_count() == 0, "gate:clear", "objects remain after clear");
  eval(), count("tasks", static_cast<uint64_t>(uses.load()));
  distinct(Hash().add(r.next()).get());
}

// ---------------------------------------------------------------- locks
static void locks(uint64_t c, Rng &r) {
  size_t threads = 2 + r.below(5);
  int rounds = 300;
  uint64_t s0 = r.next();
  progress("locks");
  {
    alaya::SpinLock l;
    int64_t plain = 0;
    std::atomic<int> in{0}, bad{0}, got{0};
    std::vector<std::thread> th;
    for (size_t t = 0; t < threads; ++t)
      th.emplace_back([&, t] {
        Rng q(s0 + t);
        for (int i = 0; i < rounds; ++i) {
          bool have = true;
          if (i % 3 == 0) l.lock();
          else if (i % 3 == 1) have = l.try_lock();
          else {
            alaya::SpinLockGuard g(l);
            if (in++) bad++;
            plain++, got++;
            in--;
            continue;
          }
          if (!have) continue;
          if (in++) bad++;
          plain++, got++;
          nap(q);
          in--;
          l.unlock();
        }
      });
    for (auto &t : th) t.join();
    VF_CHECK(bad == 0 && plain == got, "spinlock", "two threads inside the lock ", bad.load(), " times; ", plain, " of ", got.load(), " increments");
    VF_CHECK(l.try_lock() && !l.try_lock(), "spinlock", "try_lock on a free or held lock is wrong");
    l.unlock();
    eval();
  }
  {
    alaya::SharedLock l;
    int64_t a = 0, b = 0;
    std::atomic<int> w{0}, rd{0}, bad{0}, writes{0};
    std::vector<std::thread> th;
    for (size_t t = 0; t < threads; ++t)
      th.emplace_back([&, t] {
        Rng q(s0 + t);
        for (int i = 0; i < rounds / 3; ++i) {
          if (q.chance(0.4)) {
            l.lock();
            if (w++ || rd) bad++;
            a++, b++, writes++;
            nap(q);
            w--;
            if (q.chance(0.3)) {  // keep a shared hold
              rd++;
              l.degrade_lock();
              if (w || a != b) bad++;
              rd--;
              l.unlock_shared();
            } else {
              l.unlock();
            }
          } else {
            l.lock_shared();
            rd++;
            if (w || a != b) bad++;
            nap(q);
            rd--;
            l.unlock_shared();
          }
        }
      });
    for (auto &t : th) t.join();
    VF_CHECK(bad == 0 && a == writes && b == a, "sharedlock", "writer together with others ", bad.load(), " times");
    VF_CHECK(l.no_lock() && l.get_state() == 0, "sharedlock", "not free at the end: ", l.get_state());
    l.lock_shared();
    l.upgrade_lock();
    VF_CHECK(l.get_state() == -1, "sharedlock", "upgrade of the only reader leaves state ", l.get_state());
    l.unlock();
    VF_CHECK(l.no_lock(), "sharedlock", "not free after unlock");
    eval();
  }
  if (c % 4 == 0) {  // file lock: threads and processes, released when a holder dies
    Tmp t("flock");
    std::string f = t.s("lock"), data = t.s("data");
    { std::ofstream(data) << "0 0"; }
    auto bump = [&](int n) {
      for (int i = 0; i < n; ++i) {
        alaya::FileLock l(f);
        long x = 0, y = -1;
        std::ifstream(data) >> x >> y;
        if (x != y) return 1;
        std::ofstream o(data, std::ios::trunc);
        o << x + 1 << " ";
        o.flush();
        o << x + 1;
      }
      return 0;
    };
    int procs = 0;
    std::vector<pid_t> ps;
#if !defined(__SANITIZE_THREAD__)
    for (int p = 0; p < 3; ++p) {
      pid_t pid = fork();
      if (pid == 0) {
        int rc = bump(20);
        if (p == 2) {
          alaya::FileLock l(f);  // die holding it
          _exit(rc);
        }
        _exit(rc);
      }
      ps.push_back(pid), procs++;
    }
#endif
    std::atomic<int> bad{0};
    std::vector<std::thread> th;
    for (int k = 0; k < 3; ++k) th.emplace_back([&] { bad += bump(20); });
    for (auto &x : th) x.join();
    for (pid_t p : ps) {
      int st = 0;
      waitpid(p, &st, 0);
      VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "filelock", "a process saw a half-written file under the lock");
    }
    long x = 0, y = 0;
    std::ifstream(data) >> x >> y;
    VF_CHECK(bad == 0 && x == 60 + 20 * procs && x == y, "filelock", "counted ", x, " of ", 60 + 20 * procs);
    eval();
    count("file_lock_turns", static_cast<uint64_t>(x));
  }
  distinct(Hash().add(s0).get());
}

int main(int argc, char **argv) {
  init(argc, argv);
  cases("thread-pool", tiered(60, 2000), thread_pool);
  cases("scheduler", tiered(120, 4000), scheduler);
  cases("queues", tiered(40, 1000), queues);
  cases("gate", tiered(80, 2000), gate);
  cases("locks", tiered(24, 400), locks);
  return finish();
}
