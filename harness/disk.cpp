// D01 (model), D02 (crash, fail), D03 (lock, readers): disk collections.
// Oracle: a list of labelled vectors kept beside the collection, searched by brute force in double precision.
#include "vf.hpp"
#include "crashfs.hpp"
#include <signal.h>
#include <sys/mman.h>
#include <array>
#include <atomic>
#include <thread>
#include <spdlog/spdlog.h>
#include "index/disk/disk_collection.hpp"
using namespace vf;
using namespace alaya::disk;
using alaya::MetricType;
using Vec = std::vector<float>;

struct Row { uint64_t label; Vec v; };
using Rows = std::vector<Row>;
struct Conf { uint32_t dim; MetricType metric; DiskIndexType type; size_t cap; VamanaSegmentBuildParams vp; bool grid; };
static const char *metric_name(MetricType m) { return m == MetricType::L2 ? "L2" : m == MetricType::IP ? "IP" : "COS"; }
static std::string desc(const Conf &c) { return cat("dim=", c.dim, " ", metric_name(c.metric), c.type == DiskIndexType::Flat ? " flat" : " vamana", c.grid ? " grid" : ""); }
static double dist(MetricType m, const float *q, const float *v, size_t d) {
  double s = 0, qq = 0, vv = 0, dot = 0;
  for (size_t i = 0; i < d; ++i) {
    double a = q[i], b = v[i];
    s += (a - b) * (a - b), qq += a * a, vv += b * b, dot += a * b;
  }
  return m == MetricType::L2 ? s : m == MetricType::IP ? -dot : -dot / std::sqrt(qq * vv);
}
static Vec vec(Rng &r, const Conf &c) {
  for (;;) {
    Vec v(c.dim);
    float sc = r.chance(0.1) ? 100.f : 1.f;
    bool nz = false;
    for (auto &x : v) x = c.grid ? static_cast<float>(r.range(-2, 2)) : static_cast<float>(sc * r.gauss()), nz |= x != 0;
    if (nz) return v;
  }
}
struct Tally { double hit = 0, all = 0; };
static std::map<std::string, Tally> g_recall;

// ---------------------------------------------------------------- searching
// one answer against the rows that are published
static void judge(const std::string &ds, const Conf &c, const Rows &rows, size_t segs, const float *q, const DiskSearchOptions &o, const std::vector<DiskSearchHit> &hits, const char *where) {
  std::map<uint64_t, double> truth;
  std::vector<double> all;
  double scale = 1e-6;
  for (auto &x : rows) {
    double d = dist(c.metric, q, x.v.data(), c.dim), n = 0;
    for (size_t i = 0; i < c.dim; ++i) n += std::abs(static_cast<double>(q[i]) * x.v[i]);
    scale = std::max(scale, c.metric == MetricType::L2 ? std::abs(d) : c.metric == MetricType::IP ? n : 1.0);
    truth[x.label] = d, all.push_back(d);
  }
  std::sort(all.begin(), all.end());
  size_t want = std::min<size_t>(o.top_k, rows.size());
  double tol = scale * 2e-5;
  std::set<uint64_t> got;
  double prev = -1e300;
  uint64_t prevl = 0;
  size_t good = 0;
  bool flat = c.type == DiskIndexType::Flat;
  VF_CHECK(hits.size() <= want && (!flat || hits.size() == want), cat(where, ":count"), ds, " k=", o.top_k, " over ", rows.size(), " rows in ", segs, " segments returned ", hits.size());
  for (size_t i = 0; i < hits.size(); ++i) {
    auto it = truth.find(hits[i].label);
    VF_CHECK(it != truth.end(), cat(where, ":label"), ds, " returned label ", hits[i].label, " that is not stored");
    if (it == truth.end()) return;
    VF_CHECK(got.insert(hits[i].label).second, cat(where, ":twice"), ds, " returned label ", hits[i].label, " twice");
    VF_CHECK(std::abs(hits[i].distance - it->second) <= tol, cat(where, ":distance"), ds, " label ", hits[i].label, " at ", hits[i].distance, ", true distance ", it->second);
    VF_CHECK(hits[i].distance > prev || (hits[i].distance == prev && hits[i].label > prevl), cat(where, ":order"), ds, " hit ", i, " (", hits[i].label, ", ", hits[i].distance, ") after (", prevl, ", ", prev, ")");
    prev = hits[i].distance, prevl = hits[i].label;
    good += it->second <= all[want - 1] + tol;
    count("answers");
  }
  if (flat) {
    VF_CHECK(good == want, cat(where, ":exact"), ds, " k=", o.top_k, ": only ", good, " of the ", want, " nearest of ", rows.size(), " rows in ", segs, " segments");
    // equal vectors have equal distances, and then the smaller label comes first
    std::map<Vec, std::vector<uint64_t>> same;
    for (auto &x : rows) same[x.v].push_back(x.label);
    for (auto &[v, ls] : same) {
      if (ls.size() < 2) continue;
      std::sort(ls.begin(), ls.end());
      bool gap = false;
      for (auto l : ls) {
        bool in = got.contains(l);
        VF_CHECK(!(in && gap), cat(where, ":tie"), ds, " k=", o.top_k, ": label ", l, " preferred to a smaller label with the same vector");
        gap |= !in;
      }
      count("ties");
    }
    if (c.grid && c.metric != MetricType::COS) {  // all arithmetic is exact: the answer is fully determined
      std::vector<std::pair<double, uint64_t>> ref;
      for (auto &[l, d] : truth) ref.emplace_back(d, l);
      std::sort(ref.begin(), ref.end());
      for (size_t i = 0; i < std::min(hits.size(), want); ++i)
        VF_CHECK(hits[i].label == ref[i].second && hits[i].distance == ref[i].first, cat(where, ":ranking"), ds, " hit ", i, " is (", hits[i].label, ", ", hits[i].distance, "), want (", ref[i].second, ", ", ref[i].first, ")");
      count("determined_answers");
    }
  } else if (!c.grid && o.ef >= 50) {
    auto &t = g_recall[where];
    t.hit += static_cast<double>(good), t.all += static_cast<double>(std::min<size_t>(want, o.ef));
  }
}
static void probe(Rng &r, const std::string &ds, const Conf &c, const DiskCollection &col, const Rows &rows, size_t segs, const char *where) {
  VF_CHECK(col.size() == rows.size(), cat(where, ":size"), ds, " size() is ", col.size(), " with ", rows.size(), " rows flushed");
  VF_CHECK(col.dim() == c.dim, cat(where, ":dim"), ds, " dim() is ", col.dim());
  Vec q = !rows.empty() && r.chance(0.3) ? rows[r.below(rows.size())].v : vec(r, c);
  DiskSearchOptions o;
  o.top_k = static_cast<uint32_t>(r.chance(0.3) ? r.range(1, static_cast<int64_t>(rows.size()) + 5) : r.range(1, 12));
  o.ef = static_cast<uint32_t>(r.chance(0.5) ? 100 : r.range(1, 80));
  o.beam_width = static_cast<uint32_t>(r.range(1, 8)), o.exact_rerank = r.chance(0.5);
  auto hits = col.search(q.data(), o);
  eval(), count("searches");
  if (segs > 1) count("many_segment_searches");
  judge(ds, c, rows, segs, q.data(), o, hits, where);
  Hash h;
  h.add(ds).add(rows.size()).add(segs).add(q.data(), 4 * q.size()).add(o.top_k).add(o.ef);
  if (!rows.empty()) distinct(h.get());
}
static void batch(Rng &r, const std::string &ds, const Conf &c, const DiskCollection &col, const Rows &rows, const char *where) {
  uint64_t nq = r.below(9);
  DiskSearchOptions o;
  o.top_k = static_cast<uint32_t>(r.range(1, 10)), o.ef = static_cast<uint32_t>(r.range(1, 100));
  Vec q;
  for (uint64_t i = 0; i < nq; ++i) { auto v = vec(r, c); q.insert(q.end(), v.begin(), v.end()); }
  static const float kNone = std::numeric_limits<float>::max();
  std::vector<uint64_t> labels(nq * o.top_k + 2, 12345678901ULL);
  Vec ds_(nq * o.top_k + 2, kNone);
  uint32_t th = static_cast<uint32_t>(r.range(1, 5));
  bool with = r.chance(0.7);
  col.batch_search(q.data(), nq, o, th, labels.data(), with ? ds_.data() : nullptr);
  count("batches");
  for (uint64_t i = 0; i < nq; ++i) {
    auto one = col.search(q.data() + i * c.dim, o);
    for (uint32_t k = 0; k < o.top_k; ++k) {
      uint64_t l = k < one.size() ? one[k].label : 12345678901ULL;
      float d = with && k < one.size() ? one[k].distance : kNone;
      VF_CHECK(labels[i * o.top_k + k] == l && ds_[i * o.top_k + k] == d, cat(where, ":batch"), ds, " ", nq, " queries k=", o.top_k, " threads=", th, ": query ", i, " place ", k, " is (", labels[i * o.top_k + k], ", ",
               ds_[i * o.top_k + k], "), alone (", l, ", ", d, ")");
    }
    count("batch_queries");
  }
  VF_CHECK(labels[nq * o.top_k] == 12345678901ULL && labels[nq * o.top_k + 1] == 12345678901ULL && ds_[nq * o.top_k] == kNone, cat(where, ":batch-overrun"), ds, " wrote past the result");
  (void)rows;
}
template <class F>
static bool throws(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}
static Conf conf(Rng &r, bool vamana) {
  Conf c;
  static const uint32_t dims[] = {1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100};
  c.dim = dims[r.below(std::size(dims))];
  c.type = vamana ? DiskIndexType::Vamana : DiskIndexType::Flat;
  c.metric = vamana ? MetricType::L2 : std::array<MetricType, 3>{MetricType::L2, MetricType::IP, MetricType::COS}[r.below(3)];
  c.cap = r.chance(0.5) ? DiskCollection::kDefaultMaxPendingBytes : static_cast<size_t>(r.range(200, 60000));
  c.grid = r.chance(0.35);
  c.vp.R = static_cast<uint32_t>(r.range(12, 40)), c.vp.L = c.vp.R + static_cast<uint32_t>(r.below(60)), c.vp.alpha = r.chance(0.5) ? 1.2f : 1.0f;
  c.vp.num_threads = 1, c.vp.seed = r.chance(0.3) ? r.next() : r.below(10000);
  return c;
}

// ---------------------------------------------------------------- D01: histories
static void model(uint64_t ci, Rng &r) {
  Conf c = conf(r, ci % 3 == 2);
  Tmp t("disk");
  auto path = t.p / "col";
  std::string ds = desc(c);
  auto col = std::make_unique<DiskCollection>(path, c.dim, c.metric, c.type, c.cap, c.vp);
  VF_CHECK(throws([&] { DiskCollection again(path, c.dim, c.metric, c.type); }), "model:create-twice", ds, " created over itself");
  Rows live, pending;
  size_t segs = 0;
  std::set<uint64_t> used;
  std::string hist;
  auto fresh = [&] {
    for (;;) {
      uint64_t l = r.chance(0.1) ? r.next() : r.chance(0.02) ? ~0ULL - r.below(2) : r.below(5000);
      if (used.insert(l).second) return l;
    }
  };
  uint64_t per = static_cast<uint64_t>(c.dim) * 4 + 8;
  int steps = static_cast<int>(r.range(10, 45));
  for (int s = 0; s < steps; ++s) {
    int op = static_cast<int>(r.below(100));
    std::string at = cat(ds, " after ", hist);
    if (op < 40) {  // add
      size_t n = static_cast<size_t>(r.chance(0.1) ? r.range(0, 200) : r.range(0, 25));
      Vec v;
      std::vector<uint64_t> ls;
      Rows add;
      for (size_t i = 0; i < n; ++i) {
        Row x{fresh(), r.chance(0.15) && !live.empty() ? live[r.below(live.size())].v : r.chance(0.1) && !add.empty() ? add[r.below(add.size())].v : vec(r, c)};
        ls.push_back(x.label), v.insert(v.end(), x.v.begin(), x.v.end()), add.push_back(x);
      }
      bool fits = 2 * (pending.size() + n) * per <= c.cap || n == 0;
      bool threw = throws([&] { col->add_batch(v.data(), ls.data(), n); });
      VF_CHECK(threw == !fits, "model:limit", at, ": adding ", n, " rows to ", pending.size(), " pending of ", per, " bytes under a limit of ", c.cap, threw ? " is refused" : " is accepted");
      if (!threw) pending.insert(pending.end(), add.begin(), add.end());
      else count("refused_adds");
      hist += cat("a", n, threw ? "! " : " ");
      count("adds");
    } else if (op < 62) {  // flush
      bool ok = c.type == DiskIndexType::Flat || pending.size() != 1;
      bool threw = throws([&] { col->flush(); });
      VF_CHECK(threw == !ok, "model:flush", at, ": flushing ", pending.size(), " rows ", threw ? "fails" : "is accepted");
      hist += cat("f", pending.size(), threw ? "! " : " ");
      if (!threw && !pending.empty()) live.insert(live.end(), pending.begin(), pending.end()), pending.clear(), ++segs, count("flushes");
      probe(r, cat(ds, " after ", hist), c, *col, live, segs, "model");
    } else if (op < 72 && s > 3) {  // a batch that must be refused: nothing of it, and nothing else, may change
      int kind = static_cast<int>(r.below(4));
      Row bad{fresh(), vec(r, c)};
      if (kind == 0 && !pending.empty()) bad.label = pending[r.below(pending.size())].label;
      else if (kind == 1 && !live.empty()) bad.label = live[r.below(live.size())].label;
      else if (kind == 2 && c.metric == MetricType::COS) std::fill(bad.v.begin(), bad.v.end(), 0.f);
      else {
        static const uint32_t odd[] = {0x7fc00000u, 0x7f800000u, 0xff800000u, 0x7f800001u};
        std::memcpy(&bad.v[r.below(c.dim)], &odd[r.below(4)], 4);
      }
      if (2 * (pending.size() + 1) * per > c.cap) continue;
      bool threw = throws([&] { col->add_batch(bad.v.data(), &bad.label, 1); col->flush(); });
      VF_CHECK(threw, "model:refuse", at, ": a flush with a ", kind == 0 ? "repeated" : kind == 1 ? "stored" : "new", " label, or a vector without direction or with a non-number, is accepted");
      probe(r, cat(at, "bad", kind), c, *col, live, segs, "refused");
      VF_CHECK(throws([&] { col->flush(); }), "model:refuse-again", at, ": the refused rows are accepted when flushed again");
      col.reset();
      col = std::make_unique<DiskCollection>(DiskCollection::open(path));  // drops what is pending
      pending.clear();
      hist += cat("bad", kind, " ");
      probe(r, cat(ds, " after ", hist), c, *col, live, segs, "refused-reopened");
      count("refused_flushes");
    } else if (op < 80) {  // reopen
      VF_CHECK(throws([&] { auto two = DiskCollection::open(path); }), "model:second-writer", at, ": opened while it is open");
      col.reset();
      col = std::make_unique<DiskCollection>(DiskCollection::open(path));
      pending.clear();
      hist += "o ";
      count("reopens");
      for (int k = 0; k < 3; ++k) probe(r, cat(ds, " after ", hist), c, *col, live, segs, "reopened");
    } else if (op < 90) {
      batch(r, at, c, *col, live, "model");
    } else if (op < 95) {  // invalid calls
      Vec q = vec(r, c);
      DiskSearchOptions o;
      o.top_k = 0;
      VF_CHECK(throws([&] { col->search(q.data(), o); }), "model:bad-call", at, ": top_k=0 accepted");
      o.top_k = 3;
      if (!live.empty()) {
        uint32_t odd = r.chance(0.5) ? 0x7fc00000u : 0x7f800000u;
        std::memcpy(&q[r.below(c.dim)], &odd, 4);
        VF_CHECK(throws([&] { col->search(q.data(), o); }), "model:bad-call", at, ": a query with a non-number accepted");
        if (c.metric == MetricType::COS) { std::fill(q.begin(), q.end(), 0.f); VF_CHECK(throws([&] { col->search(q.data(), o); }), "model:bad-call", at, ": a query without direction accepted"); }
        VF_CHECK(throws([&] { col->search(nullptr, o); }), "model:bad-call", at, ": a null query accepted");
      }
      uint64_t l = 1;
      VF_CHECK(throws([&] { col->add_batch(nullptr, &l, 1); }) && throws([&] { col->add_batch(q.data(), nullptr, 1); }), "model:bad-call", at, ": null buffers accepted");
      std::vector<uint64_t> out(8);
      VF_CHECK(throws([&] { col->batch_search(q.data(), 1, o, 0, out.data(), nullptr); }), "model:bad-call", at, ": a batch on no threads accepted");
      count("invalid_calls");
    } else {
      for (int k = 0; k < 4; ++k) probe(r, at, c, *col, live, segs, "model");
    }
  }
  if (ci % 10 == 0) sample(cat(ds, ": ", hist, "= ", live.size(), " rows in ", segs, " segments"));
}
// what must not be created at all
static void refuse(uint64_t, Rng &r) {
  Tmp t("diskr");
  eval();
  auto mk = [&](uint32_t dim, MetricType m, DiskIndexType ty, VamanaSegmentBuildParams vp = {}) { return throws([&] { DiskCollection c(t.p / "x", dim, m, ty, 1000, vp); }); };
  VamanaSegmentBuildParams z;
  z.R = 0;
  VF_CHECK(mk(0, MetricType::L2, DiskIndexType::Flat) && mk(4, MetricType::NONE, DiskIndexType::Flat) && mk(4, MetricType::L2, DiskIndexType::Vamana, z), "create:refused", "an invalid collection was created");
  z = {};
  z.L = z.R - 1 - static_cast<uint32_t>(r.below(20));
  VF_CHECK(mk(4, MetricType::L2, DiskIndexType::Vamana, z), "create:refused", "a beam below the degree was accepted");
  z = {};
  z.alpha = 0.9f;
  VF_CHECK(mk(4, MetricType::L2, DiskIndexType::Vamana, z), "create:refused", "alpha below one was accepted");
  VF_CHECK(!fs::exists(t.p / "x"), "create:left-over", "a refused creation left files");
  VF_CHECK(throws([&] { DiskCollection::open(t.p / "x"); }), "open:missing", "opened a collection that does not exist");
  fs::create_directories(t.p / "y");
  VF_CHECK(throws([&] { DiskCollection::open(t.p / "y"); }), "open:empty", "opened an empty directory");
  // a Vamana segment over another metric is refused and leaves no trace
  DiskCollection c(t.p / "v", 4, MetricType::IP, DiskIndexType::Vamana);
  Vec v(12, 1.f);
  std::array<uint64_t, 3> ls{1, 2, 3};
  c.add_batch(v.data(), ls.data(), 3);
  VF_CHECK(throws([&] { c.flush(); }) && c.size() == 0, "create:vamana-metric", "a Vamana segment was built for inner products");
  size_t n = 0;
  for (auto &e : fs::directory_iterator(t.p / "v" / "segments")) (void)e, ++n;
  VF_CHECK(n == 0, "create:left-over", "a refused segment left ", n, " entries");
}

// ---------------------------------------------------------------- D02: crashes and failing calls
struct Shared {
  std::atomic<int> created, acked, flying, failures, stuck;
  std::atomic<long> calls;
  char note[300];
};
static Shared *g_sh;
static Rows chunk(const Conf &c, uint64_t seed, int k) {
  Rng r(seed + static_cast<uint64_t>(k) * 977);
  Rows rows;
  size_t n = static_cast<size_t>(r.range(2, 9));
  for (size_t i = 0; i < n; ++i) rows.push_back({static_cast<uint64_t>(k) * 100 + i, vec(r, c)});
  return rows;
}
static void add(DiskCollection &col, const Rows &rows, uint32_t dim) {
  Vec v;
  std::vector<uint64_t> ls;
  for (auto &x : rows) ls.push_back(x.label), v.insert(v.end(), x.v.begin(), x.v.end());
  (void)dim;
  col.add_batch(v.data(), ls.data(), ls.size());
}
// everything the collection holds, checked against the rows expected
static std::string differs(const DiskCollection &col, const Conf &c, const Rows &rows) {
  if (col.size() != rows.size()) return cat("size ", col.size(), ", expected ", rows.size());
  Rng r(99);
  for (int k = 0; k < 3 && !rows.empty(); ++k) {
    Vec q = vec(r, c);
    DiskSearchOptions o;
    o.top_k = static_cast<uint32_t>(rows.size()) + 3, o.ef = 200;
    auto hits = col.search(q.data(), o);
    if (hits.size() != rows.size()) return cat("a search for everything returned ", hits.size(), " of ", rows.size());
    std::map<uint64_t, const Row *> by;
    for (auto &x : rows) by[x.label] = &x;
    std::set<uint64_t> seen;
    for (auto &h : hits) {
      if (!by.contains(h.label) || !seen.insert(h.label).second) return cat("label ", h.label, " is wrong or repeated");
      double d = dist(c.metric, q.data(), by[h.label]->v.data(), c.dim);
      if (std::abs(h.distance - d) > 1e-3 * (1 + std::abs(d))) return cat("label ", h.label, " is at ", h.distance, ", expected ", d);
    }
  }
  return {};
}
static void play(const fs::path &path, const Conf &c, uint64_t seed, int flushes, bool retry, int reopen_at) {
  std::unique_ptr<DiskCollection> col;
  try {
    col = std::make_unique<DiskCollection>(path, c.dim, c.metric, c.type, 1 << 20, c.vp);
  } catch (const std::exception &) {
    if (!retry) throw;
    g_sh->failures++;
    fs::remove_all(path);  // what a refused creation left is the user's to remove
    col = std::make_unique<DiskCollection>(path, c.dim, c.metric, c.type, 1 << 20, c.vp);
  }
  g_sh->created = 1;
  Rows have;
  for (int k = 0; k < flushes; ++k) {
    auto rows = chunk(c, seed, k);
    add(*col, rows, c.dim);
    g_sh->flying = k + 1;
    Rows then = have;
    then.insert(then.end(), rows.begin(), rows.end());
    try {
      col->flush();
    } catch (const std::exception &e) {
      if (!retry) throw;
      g_sh->failures++;
      if (auto d = differs(*col, c, have); !d.empty()) { g_sh->stuck++; snprintf(g_sh->note, sizeof g_sh->note, "after a failed flush: %s", d.c_str()); }
      try {
        col->flush();
      } catch (const std::exception &e2) {
        g_sh->stuck++;
        snprintf(g_sh->note, sizeof g_sh->note, "flush failed (%.120s) and cannot be repeated: %.120s", e.what(), e2.what());
        return;
      }
    }
    have = then;
    if (auto d = differs(*col, c, have); !d.empty()) { g_sh->stuck++; snprintf(g_sh->note, sizeof g_sh->note, "after flush %d: %s", k, d.c_str()); }
    g_sh->acked = k + 1;
    if (k == reopen_at) {
      col.reset();
      try {
        col = std::make_unique<DiskCollection>(DiskCollection::open(path));
      } catch (const std::exception &) {
        if (!retry) throw;
        g_sh->failures++;
        col = std::make_unique<DiskCollection>(DiskCollection::open(path));
      }
    }
  }
}
static void crash(crashfs::Mode mode, bool reads, const char *name, uint64_t ci, Rng &r) {
  Conf c = conf(r, ci % 2 == 1);
  c.dim = std::min<uint32_t>(c.dim, 17);
  c.grid = false;
  c.vp.R = 16, c.vp.L = 30;
  uint64_t seed = r.next();
  int flushes = static_cast<int>(r.range(1, 3)), reopen_at = r.chance(0.5) ? static_cast<int>(r.below(3)) : -1;
  bool failing = mode == crashfs::FAIL || mode == crashfs::SHORT;
  long total = 0;
  for (long target = -1; target < (target < 0 ? 1 : total); ++target) {
    Tmp t("crash");
    auto path = t.p / "col";
    g_sh->created = g_sh->acked = g_sh->flying = g_sh->failures = g_sh->stuck = 0;
    g_sh->note[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
      int rc = 0;
      crashfs::arm(target < 0 ? crashfs::COUNT : mode, t.s(), target, (target & 1) ? ENOSPC : EIO);
      crashfs::st->reads = reads;
      try {
        play(path, c, seed, flushes, failing, reopen_at);
      } catch (const std::exception &e) {
        snprintf(g_sh->note, sizeof g_sh->note, "%.250s", e.what());
        rc = 3;
      }
      g_sh->calls = crashfs::disarm();
      _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (target < 0) total = g_sh->calls, count("fault_points", static_cast<uint64_t>(total));
    bool died = WIFEXITED(st) && WEXITSTATUS(st) == 137;
    if (died) count("deaths");
    count("reported_failures", static_cast<uint64_t>(g_sh->failures.load()));
    std::string why = cat(name, " at call ", target, "/", total, " ", desc(c), " ", flushes, " flushes");
    VF_CHECK(died || (WIFEXITED(st) && WEXITSTATUS(st) == 0), cat(name, ":child"), why, ": status ", st, " ", g_sh->note);
    VF_CHECK(g_sh->stuck == 0, cat(name, ":inside"), why, ": ", g_sh->note);
    eval();
    Hash h;
    h.add(std::string(name)).add(target).add(seed);
    if (target >= 0) distinct(h.get());
    for (auto &e : fs::directory_iterator(t.p.parent_path())) if (e.path().string().starts_with(t.s() + ".kept")) fs::remove(e.path());
    if (!g_sh->created && !failing) {  // interrupted creation: refused, or an empty collection, never anything else
      try {
        auto col = DiskCollection::open(path);
        VF_CHECK(col.size() == 0, cat(name, ":created"), why, ": an interrupted creation left ", col.size(), " rows");
      } catch (const std::exception &) {}
      count("interrupted_creations");
      continue;
    }
    Rows base, more;
    for (int k = 0; k < g_sh->acked; ++k) for (auto &x : chunk(c, seed, k)) base.push_back(x);
    more = base;
    if (g_sh->flying > g_sh->acked) for (auto &x : chunk(c, seed, g_sh->flying - 1)) more.push_back(x);
    try {
      Rows now;
      {
        auto col = DiskCollection::open(path);
        auto a = differs(col, c, base), b = differs(col, c, more);
        VF_CHECK(a.empty() || b.empty(), cat(name, ":contents"), why, ": ", g_sh->acked.load(), " flushes done", g_sh->flying > g_sh->acked ? " and one under way" : "", ": ", a);
        if (!a.empty() && !b.empty()) continue;
        now = a.empty() ? base : more;
        count(a.empty() ? "without_the_last" : "with_the_last");
        // life goes on
        auto next = chunk(c, seed, 20);
        add(col, next, c.dim);
        col.flush();
        now.insert(now.end(), next.begin(), next.end());
        auto d = differs(col, c, now);
        VF_CHECK(d.empty(), cat(name, ":continued"), why, ": after one more flush: ", d);
        next = chunk(c, seed, 21);
        add(col, next, c.dim);
        col.flush();
        now.insert(now.end(), next.begin(), next.end());
      }
      auto col = DiskCollection::open(path);
      auto d = differs(col, c, now);
      VF_CHECK(d.empty(), cat(name, ":continued"), why, ": after two more flushes and a reopen: ", d);
    } catch (const std::exception &e) {
      violation(cat(name, ":unusable"), cat(why, ": ", e.what()));
    }
  }
  sample(cat(name, ": ", desc(c), ", ", flushes, " flushes: every one of ", total, " calls"));
}

// ---------------------------------------------------------------- D03: one writer
struct Lock { std::atomic<int> holders, worst, opens, refusals, odd; char note[200]; };
static void locks(uint64_t ci, Rng &r) {
  static Lock *lk = static_cast<Lock *>(mmap(nullptr, sizeof(Lock), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(static_cast<void *>(lk), 0, sizeof *lk);
  Tmp t("lock");
  auto path = t.p / "col";
  Conf c{4, MetricType::L2, DiskIndexType::Flat, 1 << 20, {}, false};
  bool create = ci % 3 == 0;  // the contenders also create the collection
  if (!create) { DiskCollection col(path, 4, c.metric, c.type); }
  int procs = static_cast<int>(r.range(2, 4)), threads = static_cast<int>(r.range(1, 3));
  bool die = r.chance(0.5);
  uint64_t seed = r.next();
  std::vector<pid_t> kids;
  for (int p = 0; p < procs; ++p) {
    pid_t pid = fork();
    if (pid == 0) {
      std::vector<std::thread> ts;
      for (int th = 0; th < threads; ++th)
        ts.emplace_back([&, th] {
          Rng q(seed + static_cast<uint64_t>(p * 31 + th));
          for (int k = 0; k < 25; ++k) {
            try {
              std::unique_ptr<DiskCollection> col;
              if (create && k == 0) col = std::make_unique<DiskCollection>(path, 4, c.metric, c.type);
              else col = std::make_unique<DiskCollection>(DiskCollection::open(path));
              int h = ++lk->holders;
              int w = lk->worst;
              while (h > w && !lk->worst.compare_exchange_weak(w, h)) {}
              lk->opens++;
              if (q.chance(0.4)) {
                Vec v(8, static_cast<float>(k));
                std::array<uint64_t, 2> ls{static_cast<uint64_t>(p * 100000 + th * 10000 + k * 10), static_cast<uint64_t>(p * 100000 + th * 10000 + k * 10 + 1)};
                uint64_t before = col->size();
                col->add_batch(v.data(), ls.data(), 2);
                col->flush();
                if (col->size() != before + 2) lk->odd++, snprintf(lk->note, sizeof lk->note, "size %lu after adding 2 to %lu", col->size(), before);
              }
              if (q.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(300)));
              bool last = die && p == 0 && th == 0 && k == 20;
              --lk->holders;
              if (last) _exit(9);  // dies holding the lock
            } catch (const std::exception &e) {
              lk->refusals++;
              std::string m = e.what();
              bool known = m.find("already open") != m.npos || m.find("already exists") != m.npos || m.find("in-progress") != m.npos || m.find("does not exist") != m.npos || m.find("cannot open") != m.npos || m.find("open failed") != m.npos;
              if (!known && !create) lk->odd++, snprintf(lk->note, sizeof lk->note, "%.190s", e.what());
            }
          }
        });
      for (auto &x : ts) x.join();
      _exit(0);
    }
    kids.push_back(pid);
  }
  for (auto k : kids) {
    int st = 0;
    waitpid(k, &st, 0);
    VF_CHECK(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || (die && WEXITSTATUS(st) == 9)), "lock:child", "a contender ended with status ", st);
  }
  eval();
  count("lock_opens", static_cast<uint64_t>(lk->opens.load())), count("lock_refusals", static_cast<uint64_t>(lk->refusals.load()));
  VF_CHECK(lk->worst <= 1, "lock:two-writers", procs, " processes of ", threads, " threads: ", lk->worst.load(), " held the collection at once");
  VF_CHECK(lk->odd == 0, "lock:odd", procs, " processes of ", threads, " threads: ", lk->note);
  if (!create) VF_CHECK(lk->opens > 0, "lock:nobody", "nobody could open the collection");
  if (!create || lk->opens > 0) {
    try {
      auto col = DiskCollection::open(path);
      uint64_t n = col.size();
      Vec v(4, 1.f);
      uint64_t l = 99999999;
      col.add_batch(v.data(), &l, 1);
      col.flush();
      VF_CHECK(n % 2 == 0 && col.size() == n + 1, "lock:after", "after the contenders left: ", n, " rows, then ", col.size());
    } catch (const std::exception &e) {
      violation("lock:stays", cat("nobody holds the collection and it cannot be opened: ", e.what()));
    }
  }
  distinct(Hash().add(seed).add(lk->opens.load()).add(lk->refusals.load()).get());
  if (ci % 10 == 0) sample(cat(procs, " processes of ", threads, " threads: ", lk->opens.load(), " opens, ", lk->refusals.load(), " refusals"));
}
// many readers, and a writer that only collects rows for later
static void readers(uint64_t ci, Rng &r) {
  Conf c = conf(r, ci % 2 == 1);
  c.dim = std::min<uint32_t>(c.dim, 33);
  Tmp t("readers");
  DiskCollection col(t.p / "col", c.dim, c.metric, c.type, 1 << 24, c.vp);
  Rows live;
  size_t segs = static_cast<size_t>(r.range(1, 4));
  for (size_t s = 0; s < segs; ++s) {
    Rows rows;
    size_t n = static_cast<size_t>(r.range(5, 150));
    for (size_t i = 0; i < n; ++i) rows.push_back({s * 1000 + i * 3, vec(r, c)});
    add(col, rows, c.dim);
    col.flush();
    live.insert(live.end(), rows.begin(), rows.end());
  }
  std::string ds = cat(desc(c), " ", live.size(), " rows in ", segs, " segments, concurrently");
  struct Q { Vec q; DiskSearchOptions o; std::vector<DiskSearchHit> ref; };
  std::vector<Q> qs(24);
  for (auto &q : qs) {
    q.q = vec(r, c), q.o.top_k = static_cast<uint32_t>(r.range(1, 15)), q.o.ef = static_cast<uint32_t>(r.range(1, 60));
    q.ref = col.search(q.q.data(), q.o);
    judge(ds, c, live, segs, q.q.data(), q.o, q.ref, "readers");
  }
  std::atomic<int> wrong{0};
  std::atomic<uint64_t> done{0};
  std::vector<std::thread> ts;
  uint64_t seed = r.next();
  for (int th = 0; th < 4; ++th)
    ts.emplace_back([&, th] {
      Rng q(seed + static_cast<uint64_t>(th));
      for (int k = 0; k < 60; ++k) {
        if (th == 3 && k % 4 == 0) {  // a batch on several threads
          std::vector<float> flat;
          uint32_t kk = 5;
          DiskSearchOptions o;
          o.top_k = kk, o.ef = 40;
          for (auto &x : qs) flat.insert(flat.end(), x.q.begin(), x.q.end());
          std::vector<uint64_t> ls(qs.size() * kk, ~0ULL);
          std::vector<float> dd(qs.size() * kk, 1e30f);
          col.batch_search(flat.data(), qs.size(), o, 3, ls.data(), dd.data());
          for (size_t i = 0; i < qs.size(); ++i) {
            auto one = col.search(qs[i].q.data(), o);
            for (size_t j = 0; j < kk; ++j) if (ls[i * kk + j] != (j < one.size() ? one[j].label : ~0ULL) || dd[i * kk + j] != (j < one.size() ? one[j].distance : 1e30f)) ++wrong;
          }
          ++done;
          continue;
        }
        auto &x = qs[q.below(qs.size())];
        auto got = col.search(x.q.data(), x.o);
        bool same = got.size() == x.ref.size();
        for (size_t i = 0; same && i < got.size(); ++i) same = got[i].label == x.ref[i].label && got[i].distance == x.ref[i].distance;
        wrong += !same;
        ++done;
      }
    });
  ts.emplace_back([&] {
    Rng q(seed + 77);
    for (int k = 0; k < 40; ++k) {
      Vec v = vec(q, c);
      uint64_t l = 500000 + static_cast<uint64_t>(k);
      col.add_batch(v.data(), &l, 1);
      std::this_thread::yield();
    }
  });
  for (auto &x : ts) x.join();
  eval(), count("shared_searches", done.load());
  VF_CHECK(wrong == 0, "readers:differ", ds, ": ", wrong.load(), " of ", done.load(), " answers differ from the same search alone");
  VF_CHECK(col.size() == live.size(), "readers:size", ds, " rows not flushed are counted");
  distinct(Hash().add(ds).add(seed).get());
}

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  init(argc, argv);
  g_sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto &m = ctx().mode;
  auto run = [&](const char *name, crashfs::Mode mode, bool reads = false) { cases(name, tiered(12, 120), [=](uint64_t ci, Rng &r) { crash(mode, reads, name, ci, r); }); };
  if (m == "model") {
    cases("model", tiered(800, 12000), model);
    cases("refuse", tiered(20, 100), refuse);
    for (auto &[k, tl] : g_recall) {
      if (tl.all < 300) continue;
      VF_CHECK(tl.hit / tl.all >= 0.95, cat("recall:", k), "recall of Vamana segments ", tl.hit / tl.all, " over ", tl.all);
      sample(cat("recall ", k, " ", tl.hit / tl.all, " of ", tl.all));
    }
  } else if (m == "kill") run("kill", crashfs::KILL);
  else if (m == "torn") run("torn", crashfs::TORN);
  else if (m == "power") run("power", crashfs::POWER);
  else if (m == "names") run("names", crashfs::NAMES);
  else if (m == "fail") run("fail", crashfs::FAIL), run("fail-reads", crashfs::FAIL, true), run("short", crashfs::SHORT);
  else if (m == "lock") cases("lock", tiered(40, 600), locks);
  else if (m == "readers") cases("readers", tiered(24, 300), readers);
  return finish();
}
