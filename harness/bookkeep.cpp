// X02: candidate pools, visited sets and top-k helpers against plain set / sorted-list models.
#include <memory>
#include <thread>
#include "vf.hpp"
#include "index/graph/hnsw/visited_list_pool.hpp"
#include "index/graph/laser/utils/buffer.hpp"
#include "index/neighbor.hpp"
#include "third_party/ngt/hashset.hpp"
#include "utils/evaluate.hpp"
#include "utils/query_utils.hpp"
#include "utils/rabitq_utils/search_utils/buffer.hpp"
#include "utils/rabitq_utils/search_utils/hashset.hpp"
#include "utils/rabitq_utils/search_utils/visited_pool.hpp"

using namespace vf;

// distances with many ties, or none, in every order
static std::vector<float> dists(Rng &r, size_t n) {
  std::vector<float> d(n);
  int kind = static_cast<int>(r.below(6));
  for (size_t i = 0; i < n; ++i) switch (kind) {
      case 0: d[i] = static_cast<float>(r.below(5)); break;
      case 1: d[i] = static_cast<float>(i); break;
      case 2: d[i] = static_cast<float>(n - i); break;
      case 3: d[i] = 7; break;
      case 4: d[i] = static_cast<float>(r.gauss()); break;
      default: d[i] = static_cast<float>(r.range(-20, 20)) * 1e30f; break;
    }
  return d;
}

struct PoolModel {  // what a bounded pool of the best `cap` candidates must look like from outside
  size_t cap;
  std::map<uint32_t, float> seen;
  std::vector<std::pair<uint32_t, float>> in;  // contents last observed
  std::set<uint32_t> popped;
};

template <class P>
struct Access;
template <>
struct Access<alaya::LinearPool<float, uint32_t>> {
  using P = alaya::LinearPool<float, uint32_t>;
  static constexpr const char *name = "LinearPool";
  static constexpr bool kTieReplaces = false;
  static P make(size_t cap) { return P(4096, static_cast<int>(cap)); }
  static bool insert(P &p, uint32_t id, float d) { return p.insert(id, d); }
  static size_t size(P &p) { return p.size(); }
  static uint32_t id(P &p, size_t i) { return p.id(static_cast<uint32_t>(i)); }
  static float dist(P &p, size_t i) { return p.dist(static_cast<uint32_t>(i)); }
  static bool has_next(P &p) { return p.has_next(); }
  static uint32_t next_id(P &p) { return p.next_id(); }
  static uint32_t pop(P &p, Rng &r, float *d) {
    if (r.chance(0.5)) return p.pop(*d);
    return p.pop();
  }
  static bool clear(P &) { return false; }
};
template <>
struct Access<alaya::SearchBuffer<float>> {
  using P = alaya::SearchBuffer<float>;
  static constexpr const char *name = "SearchBuffer";
  static constexpr bool kTieReplaces = true;
  static P make(size_t cap) {
    if (cap % 2) return P(cap);
    P p;
    p.resize(cap);
    return p;
  }
  static bool insert(P &p, uint32_t id, float d) { return p.insert(id, d); }
  static size_t size(P &p) { return p.size(); }
  static uint32_t id(P &p, size_t i) { return p.data()[i].id_ & 0x7fffffffu; }
  static float dist(P &p, size_t i) { return p.data()[i].distance_; }
  static bool has_next(P &p) { return p.has_next(); }
  static uint32_t next_id(P &p) { return p.next_id(); }
  static uint32_t pop(P &p, Rng &, float *) { return p.pop(); }
  static bool clear(P &p) { p.clear(); return true; }
};

template <class P>
static void pool_history(uint64_t, Rng &r) {
  using A = Access<P>;
  size_t cap = r.chance(0.3) ? 1 + r.below(4) : 1 + r.below(70);
  P p = A::make(cap);
  size_t rounds = 1 + r.below(3);
  std::string script = cat(A::name, " cap=", cap, ": ");
  Hash h;
  h.add(std::string(A::name)).add(static_cast<uint64_t>(cap));
  bool overflow = false, ties = false;
  for (size_t round = 0; round < rounds; ++round) {
    std::map<uint32_t, float> seen;
    std::set<uint32_t> popped;
    std::map<uint32_t, float> in;
    size_t n = r.below(3 * cap + 5);
    auto d = dists(r, n);
    std::vector<uint32_t> ids(n);
    std::set<uint32_t> used;
    for (auto &x : ids) do x = static_cast<uint32_t>(r.chance(0.1) ? 0x7fffff00u + r.below(200) : r.below(4096)); while (!used.insert(x).second);
    auto pop_one = [&] {
      float best = std::numeric_limits<float>::infinity();
      size_t unpopped = 0;
      for (auto &[id, x] : in)
        if (!popped.count(id)) best = std::min(best, x), ++unpopped;
      VF_CHECK(A::has_next(p) == (unpopped > 0), cat("next:", A::name), script, "has_next is ", A::has_next(p), " with ", unpopped, " candidates left");
      if (!A::has_next(p) || !unpopped) return false;
      uint32_t nx = A::next_id(p);
      float got = -1;
      uint32_t id = A::pop(p, r, &got);
      count("pops");
      VF_CHECK(nx == id, cat("next:", A::name), script, "next_id ", nx, " then pop ", id);
      VF_CHECK(in.count(id) && !popped.count(id), cat("pop:", A::name), script, "pop returned ", id, in.count(id) ? " twice" : " which is not held");
      VF_CHECK(in.count(id) && in[id] == best, cat("pop:", A::name), script, "pop returned distance ", in.count(id) ? in[id] : -1, " while ", best, " was waiting");
      VF_CHECK(got == -1 || (in.count(id) && got == in[id]), cat("pop:", A::name), script, "pop reports distance ", got);
      popped.insert(id);
      return true;
    };
    for (size_t i = 0; i < n; ++i) {
      bool full = in.size() == cap;
      float worst = 0;
      for (auto &[id, x] : in) worst = in.empty() ? x : std::max(worst, x);
      if (!in.empty()) { worst = in.begin()->second; for (auto &[id, x] : in) worst = std::max(worst, x); }
      bool ok = A::insert(p, ids[i], d[i]);
      seen[ids[i]] = d[i];
      overflow |= full;
      for (auto &[id, x] : in) ties |= x == d[i];
      if (!full || d[i] < worst) VF_CHECK(ok, cat("insert:", A::name), script, "refused ", d[i], " though ", full ? "better than the worst" : "not full");
      if (full && d[i] > worst) VF_CHECK(!ok, cat("insert:", A::name), script, "accepted ", d[i], " worse than all when full");
      // contents: the best min(cap, inserted), sorted, each at most once, with its own distance
      eval();
      size_t sz = A::size(p);
      VF_CHECK(sz == std::min(cap, seen.size()), cat("size:", A::name), script, "holds ", sz, " of ", seen.size());
      std::map<uint32_t, float> now;
      std::vector<float> have;
      for (size_t k = 0; k < sz; ++k) {
        uint32_t id = A::id(p, k);
        float x = A::dist(p, k);
        VF_CHECK(seen.count(id) && seen[id] == x, cat("content:", A::name), script, "position ", k, " holds ", id, " at ", x);
        VF_CHECK(now.emplace(id, x).second, cat("content:", A::name), script, id, " held twice");
        have.push_back(x);
      }
      VF_CHECK(std::is_sorted(have.begin(), have.end()), cat("order:", A::name), script, "contents not in order of distance");
      std::vector<float> all;
      for (auto &[id, x] : seen) all.push_back(x);
      std::sort(all.begin(), all.end());
      all.resize(std::min(all.size(), cap));
      VF_CHECK(all == have, cat("best:", A::name), script, "does not hold the best ", all.size(), " after ", i + 1, " inserts");
      VF_CHECK(ok == (now.count(ids[i]) > 0), cat("insert:", A::name), script, "insert returned ", ok, " but the candidate is ", now.count(ids[i]) ? "held" : "not held");
      in = now;
      if (r.chance(0.4)) pop_one();
      h.add(d[i]);
    }
    size_t guard = 0;
    while (guard++ <= cap && pop_one()) {}
    VF_CHECK(!A::has_next(p), cat("next:", A::name), script, "still has candidates after all were handed out");
    if constexpr (std::is_same_v<P, alaya::SearchBuffer<float>>) {
      (void)0;
    }
    if (!A::clear(p)) break;
  }
  if (overflow && ties) distinct(h.get());
}

static void rabitq_buffer_extra(uint64_t, Rng &r) {
  alaya::SearchBuffer<float> zero;
  VF_CHECK(!zero.insert(3, 1.0f) && zero.size() == 0 && !zero.has_next(), "content:SearchBuffer", "an empty buffer accepts candidates");
  size_t cap = 1 + r.below(40);
  alaya::SearchBuffer<float> b(cap);
  size_t n = r.below(2 * cap);
  std::vector<std::pair<float, uint32_t>> all;
  for (size_t i = 0; i < n; ++i) {
    float d = static_cast<float>(r.gauss());
    float top = b.top_dist();
    VF_CHECK((all.size() < cap) == (top == std::numeric_limits<float>::max()), "top:SearchBuffer", "top_dist ", top, " with ", all.size(), " of ", cap);
    if (all.size() >= cap) {
      std::sort(all.begin(), all.end());
      VF_CHECK(top == all[cap - 1].first, "top:SearchBuffer", "top_dist ", top, " expected ", all[cap - 1].first);
      VF_CHECK(b.is_full(d) == (d > top), "top:SearchBuffer", "is_full(", d, ") with top ", top);
    }
    b.insert(static_cast<uint32_t>(i), d);
    all.emplace_back(d, static_cast<uint32_t>(i));
  }
  std::sort(all.begin(), all.end());
  size_t k = r.below(cap + 3);
  std::vector<uint32_t> out(k + 1, 0xdeadbeef);
  b.copy_results_to(out.data(), k);
  size_t m = std::min({k, n, cap});
  eval();
  for (size_t i = 0; i < m; ++i) VF_CHECK(out[i] == all[i].second, "copy:SearchBuffer", "result ", i, " is ", out[i], " expected ", all[i].second);
  for (size_t i = m; i <= k; ++i) VF_CHECK(out[i] == 0xdeadbeef, "copy:SearchBuffer", "wrote beyond the results");
}

static void laser_buffers(uint64_t, Rng &r) {
  using namespace alaya::laser::buffer;
  size_t cap = 1 + r.below(60), n = r.below(3 * cap);
  auto d = dists(r, n);
  {
    SearchBuffer b(cap);
    if (r.chance(0.5)) { b.resize(cap); b.clear(); }
    std::multimap<float, uint32_t> in;
    std::map<uint32_t, float> of;
    std::set<uint32_t> out;
    std::string script = cat("laser SearchBuffer cap=", cap, " n=", n, ": ");
    for (size_t i = 0; i < n; ++i) {
      float worst = in.empty() ? 0 : in.rbegin()->first;
      bool full = b.is_full(d[i]);
      VF_CHECK(full == (in.size() == cap && d[i] > worst), "full:laser", script, "is_full(", d[i], ") = ", full, " holding ", in.size());
      if (!full) {
        b.insert(static_cast<uint32_t>(i), d[i]);
        of[static_cast<uint32_t>(i)] = d[i];
        // a tie with the worst may push out either
        in.emplace(d[i], static_cast<uint32_t>(i));
        if (in.size() > cap) in.erase(std::prev(in.end()));
      }
      while (r.chance(0.3) && b.has_next()) {
        uint32_t nx = b.next_id(), id = b.pop();
        eval(), count("pops");
        VF_CHECK(nx == id && of.count(id) && out.insert(id).second, "pop:laser", script, "popped ", id, " (next ", nx, ") unknown or twice");
        float best = std::numeric_limits<float>::infinity();
        size_t pos = 0;
        std::vector<float> held;
        for (auto &[x, q] : in) held.push_back(x);
        // smallest distance of the held ones not handed out: count held per distance minus handed out per distance
        std::map<float, int> left;
        for (float x : held) left[x]++;
        for (uint32_t q : out)
          if (q != id && left.count(of[q])) left[of[q]]--;
        for (auto &[x, c] : left)
          if (c > 0) { best = x; break; }
        (void)pos;
        bool tied_out = !in.empty() && of[id] == in.rbegin()->first;
        VF_CHECK(of[id] <= best || tied_out, "pop:laser", script, "popped distance ", of[id], " while ", best, " was waiting");
      }
    }
  }
  {
    ResultBuffer b(cap);
    std::vector<float> all;
    std::map<uint32_t, float> of;
    for (size_t i = 0; i < n; ++i) {
      b.insert(static_cast<uint32_t>(i), d[i]);
      all.push_back(d[i]);
      of[static_cast<uint32_t>(i)] = d[i];
      VF_CHECK(b.is_full() == (all.size() >= cap), "full:laser-result", "is_full wrong at ", all.size(), " of ", cap);
    }
    std::sort(all.begin(), all.end());
    std::vector<uint32_t> out(cap);
    b.copy_results(out.data());
    eval();
    std::set<uint32_t> uniq;
    for (size_t i = 0; i < std::min(cap, n); ++i)
      VF_CHECK(of.count(out[i]) && of[out[i]] == all[i] && uniq.insert(out[i]).second, "best:laser-result", "result ", i, " of ", n, " cap ", cap, " is ", out[i]);
  }
  Hash h;
  h.add(std::string("laser")).add(static_cast<uint64_t>(cap));
  for (float x : d) h.add(x);
  if (n > cap) distinct(h.get());
}

static void nsg_pool(uint64_t, Rng &r) {
  using N = alaya::Neighbor<uint32_t>;
  size_t K = 1 + r.below(40);
  auto d = dists(r, K);
  std::sort(d.begin(), d.end());
  std::vector<N> a(K + 1);
  for (size_t i = 0; i < K; ++i) a[i] = N(static_cast<uint32_t>(i), d[i], r.chance(0.5));
  auto old = a;
  N nn(0, 0, true);
  bool dup = r.chance(0.4);
  if (dup) nn = N(a[r.below(K)].id_, 0, true), nn.distance_ = d[nn.id_];
  else nn = N(static_cast<uint32_t>(1000 + r.below(9)), r.chance(0.5) ? d[r.below(K)] : static_cast<float>(r.gauss()), true);
  int res = alaya::insert_into_pool<uint32_t>(a.data(), static_cast<int>(K), nn);
  eval();
  auto eq = [](const N &x, const N &y) { return x.id_ == y.id_ && x.distance_ == y.distance_ && x.flag_ == y.flag_; };
  if (dup) {
    VF_CHECK(res == static_cast<int>(K) + 1, "dup:neighbor", "an entry already present was inserted at ", res, " of ", K);
    for (size_t i = 0; i < K; ++i) VF_CHECK(eq(a[i], old[i]), "dup:neighbor", "entry ", i, " changed");
  } else {
    VF_CHECK(res >= 0 && res <= static_cast<int>(K) && eq(a[res], nn), "insert:neighbor", "position ", res, " of ", K, " does not hold the new entry");
    std::map<uint32_t, int> c;
    for (auto &x : a) c[x.id_]++;
    VF_CHECK(c.size() == K + 1, "insert:neighbor", "entries lost");
    for (size_t i = 0; i + 1 < a.size(); ++i) VF_CHECK(a[i].distance_ <= a[i + 1].distance_, "order:neighbor", "not sorted at ", i);
    for (auto &x : a)
      if (x.id_ != nn.id_) VF_CHECK(eq(x, old[x.id_]), "insert:neighbor", "entry ", x.id_, " changed");
  }
  Hash h;
  h.add(std::string("nsg")).add(nn.distance_).add(static_cast<uint64_t>(K));
  for (float x : d) h.add(x);
  distinct(h.get());
}

static void bitsets(uint64_t, Rng &r) {
  size_t n = r.chance(0.5) ? 1 + r.below(200) : std::array<size_t, 9>{1, 63, 64, 65, 511, 512, 513, 32768, 33333}[r.below(9)];
  std::string script = cat("n=", n, ": ");
  {
    alaya::DynamicBitset b(n);
    alaya::SparseBitset sp;
    std::set<size_t> m;
    bool all = false;
    VF_CHECK(b.size() == n, "size:dynamic", script, "size ", b.size());
    for (size_t i = 0, ops = 20 + r.below(200); i < ops; ++i) {
      size_t p = r.below(n);
      switch (r.below(12)) {
        case 0: b.clear(), m.clear(), sp = alaya::SparseBitset(), all = false; break;
        case 1:
          if (n < 4000) { b.set_all(); for (size_t q = 0; q < n; ++q) m.insert(q), sp.set(q); all = true; }
          break;
        case 2: case 3: case 4: b.reset(p), sp.reset(p), m.erase(p); break;
        default: b.set(p), sp.set(p), m.insert(p); break;
      }
      size_t q = r.chance(0.3) ? p : r.below(n);
      eval();
      VF_CHECK(b.get(q) == (m.count(q) > 0), "get:dynamic", script, "bit ", q, " is ", b.get(q));
      VF_CHECK(sp.get(q) == (m.count(q) > 0), "get:sparse", script, "bit ", q, " is ", sp.get(q));
    }
    (void)all;
    for (size_t q = 0; q < n; ++q) VF_CHECK(b.get(q) == (m.count(q) > 0), "get:dynamic", script, "bit ", q, " is ", b.get(q));
  }
  {
    alaya::HierarchicalBitset b(n);
    std::set<size_t> m;
    VF_CHECK(b.find_first_set() == -1, "first:hierarchical", script, "finds ", b.find_first_set(), " when empty");
    size_t top = n;
    for (size_t i = 0, ops = 1 + r.below(60); i < ops; ++i) {
      size_t p = r.chance(0.5) ? top - 1 - r.below(std::min<size_t>(top, 70)) : r.below(n);  // approach zero from above
      top = std::max<size_t>(1, std::min(top, p + 1));
      b.set(p), m.insert(p);
      eval();
      VF_CHECK(b.find_first_set() == static_cast<int>(*m.begin()), "first:hierarchical", script, "finds ", b.find_first_set(), " expected ", *m.begin());
      size_t q = r.below(n);
      VF_CHECK(b.get(q) == (m.count(q) > 0) && b.get(p), "get:hierarchical", script, "bit ", q);
    }
    for (size_t q = 0; q < n; ++q) VF_CHECK(b.get(q) == (m.count(q) > 0), "get:hierarchical", script, "bit ", q, " is ", b.get(q));
  }
  distinct(mix(r.next()));
}

template <class Set, class Make>
static void visited(const char *name, Rng &r, size_t n, size_t resets, Make make, bool wraps) {
  Set s = make();
  std::set<uint32_t> m;
  std::string script = cat(name, " n=", n, ": ");
  for (size_t k = 0; k <= resets; ++k) {
    for (size_t i = 0, a = r.below(12); i < a; ++i) {
      auto p = static_cast<uint32_t>(r.below(n));
      VF_CHECK(s.get(p) == (m.count(p) > 0), cat("get:", name), script, "before setting ", p, " after ", k, " resets");
      s.set(p), m.insert(p);
      VF_CHECK(s.get(p), cat("get:", name), script, p, " not found right after it was set");
      auto q = static_cast<uint32_t>(r.below(n));
      VF_CHECK(s.get(q) == (m.count(q) > 0), cat("get:", name), script, q, " is ", s.get(q), " after ", k, " resets");
    }
    if (k % 64 == 0 || k == resets || (k >= 250 && k <= 260) || (k >= 65530 && k <= 65540))
      for (uint32_t q = 0; q < std::min<size_t>(n, 300); ++q) VF_CHECK(s.get(q) == (m.count(q) > 0), cat("get:", name), script, q, " is ", s.get(q), " after ", k, " resets");
    eval();
    s.clear(), m.clear();
  }
  if (wraps) count("wraparounds");
}

static void visited_sets(uint64_t c, Rng &r) {
  size_t n = 1 + r.below(c % 3 ? 100 : 5000);
  visited<alaya::EpochVisitedSet<uint8_t>>("EpochVisitedSet8", r, n, 900, [&] { return alaya::EpochVisitedSet<uint8_t>(n); }, true);
  visited<alaya::EpochVisitedSet<uint32_t>>("EpochVisitedSet32", r, n, 50, [&] { alaya::EpochVisitedSet<uint32_t> s; s.resize(n); return s; }, false);
  if (c % 8 == 0) visited<alaya::EpochVisitedSet<uint16_t>>("EpochVisitedSet16", r, 1 + r.below(50), 66000, [&] { return alaya::EpochVisitedSet<uint16_t>(50); }, true);
  visited<alaya::HashBasedBooleanSet>("HashSet", r, n, 30, [&] { return alaya::HashBasedBooleanSet(r.below(n)); }, false);
  visited<alaya::laser::HashBasedBooleanSet>("LaserHashSet", r, n, 30, [&] { return alaya::laser::HashBasedBooleanSet(r.below(n)); }, false);
  {  // dense use: many collisions, ids far beyond the table, copies and moves
    alaya::HashBasedBooleanSet s(r.below(64));
    alaya::laser::HashBasedBooleanSet l(r.below(64));
    std::set<uint32_t> m;
    for (int i = 0; i < 400; ++i) {
      auto p = static_cast<uint32_t>(r.chance(0.5) ? r.below(64) * 64 : r.next() % 0xfffffffe);
      if (r.chance(0.7)) s.set(p), l.set(p), m.insert(p);
      auto q = m.empty() || r.chance(0.5) ? static_cast<uint32_t>(r.below(4096)) : *std::next(m.begin(), static_cast<long>(r.below(m.size())));
      VF_CHECK(s.get(q) == (m.count(q) > 0), "get:HashSet", "dense: ", q, " is ", s.get(q));
      VF_CHECK(l.get(q) == (m.count(q) > 0), "get:LaserHashSet", "dense: ", q, " is ", l.get(q));
      if (i == 200) {
        alaya::HashBasedBooleanSet c2(s);
        alaya::laser::HashBasedBooleanSet c3(l);
        s = std::move(c2), l = std::move(c3);
      }
    }
    eval();
  }
  distinct(mix(r.next()));
}

static void pools(uint64_t, Rng &r) {  // shared pools of visited sets: every borrower gets a clean set nobody else holds
  size_t n = 50 + r.below(200);
  alaya::HashSetPool hp(r.below(3), n * 10);
  alaya::EpochVisitedPool<uint8_t> ep(r.below(3), n);
  alaya::VisitedListPool vp(static_cast<int>(1 + r.below(2)), static_cast<int>(n));
  std::mutex mu;
  std::set<void *> out;
  uint64_t seeds = r.next();
  std::vector<std::thread> th;
  for (int t = 0; t < 4; ++t)
    th.emplace_back([&, t] {
      Rng q(seeds + static_cast<uint64_t>(t));
      auto hold = [&](void *p) {
        std::lock_guard<std::mutex> g(mu);
        VF_CHECK(out.insert(p).second, "pool:shared", "a visited set was lent to two threads");
      };
      auto drop = [&](void *p) { std::lock_guard<std::mutex> g(mu); out.erase(p); };
      for (int i = 0; i < 150; ++i) {
        auto *a = hp.acquire();
        hold(a);
        auto *b = ep.acquire();
        hold(b);
        auto *c = vp.get_free_visited_list();
        hold(c);
        for (uint32_t k = 0; k < n; k += 7) {
          VF_CHECK(!a->get(k) && !b->get(k) && c->mass_[k] != c->cur_v_, "pool:dirty", "a borrowed set already contains ", k);
        }
        for (int k = 0; k < 9; ++k) {
          auto x = static_cast<uint32_t>(q.below(n));
          a->set(x), b->set(x), c->mass_[x] = c->cur_v_;
        }
        if (q.chance(0.3)) std::this_thread::yield();
        drop(a), drop(b), drop(c);
        hp.release(a), ep.release(b), vp.release_visited_list(c);
      }
    });
  for (auto &t : th) t.join();
  eval(600), count("wraparounds");
  distinct(mix(seeds));
}

static void topk(uint64_t, Rng &r) {
  uint32_t dim = 1 + static_cast<uint32_t>(r.below(20)), n = 1 + static_cast<uint32_t>(r.below(60)), nq = 1 + static_cast<uint32_t>(r.below(4));
  std::vector<float> data(n * dim), q(nq * dim);
  for (auto &x : data) x = static_cast<float>(r.range(-2, 2));
  for (auto &x : q) x = static_cast<float>(r.range(-2, 2));
  std::unordered_set<uint32_t> del;
  for (uint32_t i = 0; i + 1 < n; ++i)
    if (r.chance(0.2)) del.insert(i);
  bool use = r.chance(0.5);
  uint32_t avail = n - (use ? static_cast<uint32_t>(del.size()) : 0), k = 1 + static_cast<uint32_t>(r.below(avail));
  auto gt = alaya::find_exact_gt<float, float, uint32_t>(q, data, dim, k, use ? &del : nullptr);
  VF_CHECK(gt.size() == static_cast<size_t>(k) * nq, "topk:gt", "size ", gt.size());
  for (uint32_t i = 0; i < nq; ++i) {
    std::vector<float> all, got;
    auto dist = [&](uint32_t j) { float s = 0; for (uint32_t x = 0; x < dim; ++x) { float t = q[i * dim + x] - data[j * dim + x]; s += t * t; } return s; };
    for (uint32_t j = 0; j < n; ++j) if (!use || !del.count(j)) all.push_back(dist(j));
    std::sort(all.begin(), all.end());
    all.resize(k);
    std::set<uint32_t> u;
    for (uint32_t j = 0; j < k; ++j) {
      uint32_t id = gt[i * k + j];
      VF_CHECK(id < n && u.insert(id).second && !(use && del.count(id)), "topk:gt", "id ", id, " invalid, deleted or repeated");
      got.push_back(id < n ? dist(id) : -1);
    }
    eval();
    VF_CHECK(got == all, "topk:gt", "not the ", k, " nearest of ", avail);
  }
  auto rc = alaya::calc_recall<uint32_t>(gt.data(), gt.data(), nq, k, k);
  VF_CHECK(std::fabs(rc - 1.0f) < 1e-6, "topk:recall", "recall of the truth against itself is ", rc);
}

int main(int argc, char **argv) {
  init(argc, argv);
  if (ctx().mode == "conc") {
    cases("pools", tiered(20, 300), pools);
    return finish();
  }
  cases("linear-pool", tiered(2500, 40000), pool_history<alaya::LinearPool<float, uint32_t>>);
  cases("search-buffer", tiered(2500, 40000), pool_history<alaya::SearchBuffer<float>>);
  cases("search-buffer-extra", tiered(2500, 40000), rabitq_buffer_extra);
  cases("laser-buffers", tiered(4000, 40000), laser_buffers);
  cases("neighbor-pool", tiered(8000, 100000), nsg_pool);
  cases("bitsets", tiered(400, 4000), bitsets);
  cases("visited", tiered(40, 400), visited_sets);
  cases("topk", tiered(1000, 10000), topk);
  return finish();
}
