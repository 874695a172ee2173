#pragma once
// Shared by the graph harnesses: data sets, the monitor of one answer, reachability.
#include <memory>
#include <numeric>
#include <thread>
#include "vf.hpp"
#include "executor/jobs/graph_hybrid_search_job.hpp"
#include "executor/jobs/graph_search_job.hpp"
#include "executor/jobs/graph_update_job.hpp"
#include "executor/scheduler.hpp"
#include "index/graph/fusion_graph.hpp"
#include "index/graph/hnsw/hnsw_builder.hpp"
#include "index/graph/nsg/nsg_builder.hpp"
#include "index/graph/qg/qg_builder.hpp"
#include "space/rabitq_space.hpp"
#include "space/raw_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"

using namespace vf;
using namespace alaya;
#ifndef VF_ID
#define VF_ID uint32_t
#endif
using ID = VF_ID;
using Raw = RawSpace<float, float, ID, SequentialStorage<float, ID>, EmptyScalarData>;
using RawS = RawSpace<float, float, ID, SequentialStorage<float, ID>, ScalarData>;
using RawI8 = RawSpace<int8_t, float, ID, SequentialStorage<int8_t, ID>, EmptyScalarData>;
using Sq8 = SQ8Space<float, float, ID, SequentialStorage<uint8_t, ID>, EmptyScalarData>;
using Sq8S = SQ8Space<float, float, ID, SequentialStorage<uint8_t, ID>, ScalarData>;
using Sq4 = SQ4Space<float, float, ID, SequentialStorage<uint8_t, ID>, EmptyScalarData>;
using Rbq = RaBitQSpace<float, float, ID, EmptyScalarData>;
using RbqS = RaBitQSpace<float, float, ID, ScalarData>;
constexpr ID kNone = std::numeric_limits<ID>::max();
static const char *mname(MetricType m) { return m == MetricType::L2 ? "L2" : m == MetricType::IP ? "IP" : "COS"; }

template <class T>
struct Data {
  size_t dim;
  MetricType m;
  std::vector<std::vector<T>> v;  // by id
  double dist(const T *q, size_t id, double *mag = nullptr) const {
    double s = 0, g = 0;
    for (size_t i = 0; i < dim; ++i) {
      double x = q[i], y = v[id][i], t = m == MetricType::L2 ? (x - y) * (x - y) : -x * y;
      s += t, g += std::fabs(t);
    }
    if (mag) *mag = g;
    return s;
  }
  std::vector<T> flat() const {
    std::vector<T> f;
    for (auto &x : v) f.insert(f.end(), x.begin(), x.end());
    return f;
  }
};
template <class T>
static std::vector<T> draw(Rng &r, size_t dim, MetricType m, int kind, const std::vector<std::vector<T>> &centres) {
  std::vector<T> x(dim);
  if constexpr (std::is_floating_point_v<T>) {
    const auto *c = centres.empty() ? nullptr : &centres[r.below(centres.size())];
    for (size_t i = 0; i < dim; ++i) x[i] = static_cast<T>((c ? (*c)[i] : 0) + r.gauss() * (kind == 2 ? 30 : 1));
    if (m == MetricType::COS || m == MetricType::IP) {  // the bindings normalise for COS; IP over unequal norms has hub vectors, keep them mild
      double n = 0;
      for (auto y : x) n += static_cast<double>(y) * y;
      n = std::sqrt(n) + 1e-9;
      double scale = m == MetricType::COS ? 1 : 1 + 0.2 * r.unit();
      for (auto &y : x) y = static_cast<T>(y / n * scale);
    }
  } else {
    for (auto &y : x) y = static_cast<T>(r.range(-100, 100));
  }
  return x;
}
template <class T>
static Data<T> make_data(Rng &r, size_t n, size_t dim, MetricType m, int kind) {
  Data<T> d{dim, m, {}};
  std::vector<std::vector<T>> c;
  if (kind == 1) for (int i = 0; i < 5; ++i) c.push_back(draw<T>(r, dim, MetricType::L2, 2, {}));
  for (auto &x : c) for (auto &y : x) y /= 10;
  for (size_t i = 0; i < n; ++i) d.v.push_back(kind == 3 && i && r.chance(0.3) ? d.v[r.below(i)] : draw<T>(r, dim, m, kind, c));
  return d;
}

// ---- the monitor of one answer
template <class T>
struct Judge {
  const Data<T> &d;
  std::set<ID> dead;                    // removed ids
  std::function<bool(ID)> allowed;      // filter
  std::function<double(const T *, ID)> index_dist;  // the index's own distance, when it is not the exact one
  size_t k;
  std::string why;
  size_t operator()(const T *q, const std::vector<ID> &ids, const std::vector<float> *dists) const {
    size_t c = 0;
    while (c < k && ids[c] != kNone) ++c;
    std::set<ID> seen;
    double prev = -1e300;
    for (size_t i = 0; i < k; ++i) {
      if (i >= c) {
        VF_CHECK(ids[i] == kNone, "result:hole", why, "rank ", i, " holds id ", ids[i], " after an empty rank ", c);
        continue;
      }
      VF_CHECK(ids[i] < d.v.size(), "result:unknown-id", why, "rank ", i, " is id ", ids[i], " of ", d.v.size());
      if (ids[i] >= d.v.size()) return c;
      VF_CHECK(seen.insert(ids[i]).second, "result:duplicate", why, "id ", ids[i], " twice");
      VF_CHECK(!dead.count(ids[i]), "result:removed", why, "rank ", i, " is removed id ", ids[i]);
      if (allowed) VF_CHECK(allowed(ids[i]), "result:filter", why, "rank ", i, " is id ", ids[i], " which does not satisfy the filter");
      double mag, e = d.dist(q, ids[i], &mag), tol = 2e-5 * mag + 1e-6;
      if (index_dist) e = index_dist(q, ids[i]), tol = 2e-5 * (std::fabs(e) + mag) + 1e-6;
      VF_CHECK(e >= prev - 2 * tol, "result:order", why, "rank ", i, " (id ", ids[i], ") at ", e, " follows ", prev);
      prev = std::max(prev, e);
      if (dists) VF_CHECK(std::fabs((*dists)[i] - e) <= tol, "result:distance", why, "id ", ids[i], " reported at ", (*dists)[i], " is at ", e);
    }
    count("answers");
    return c;
  }
};
template <class G>
static std::vector<char> closure(G &g, size_t n, ID from) {
  std::vector<char> in(n, 0);
  std::vector<ID> st{from};
  in[from] = 1;
  while (!st.empty()) {
    ID u = st.back();
    st.pop_back();
    for (uint32_t j = 0; j < g.max_nbrs_; ++j) {
      ID v = g.at(u, j);
      if (v == kNone) break;
      if (v < n && !in[v]) in[v] = 1, st.push_back(v);
    }
  }
  return in;
}
template <class G>
static void well_formed(G &g, size_t n, const std::string &why, bool distinct_nbrs) {
  for (size_t u = 0; u < n; ++u) {
    std::set<ID> s;
    bool end = false;
    for (uint32_t j = 0; j < g.max_nbrs_; ++j) {
      ID v = g.at(static_cast<ID>(u), j);
      if (v == kNone) { end = true; continue; }
      if (end) continue;  // searches stop at the first empty slot
      VF_CHECK(v < n, "graph:neighbour", why, "vector ", u, " has neighbour ", v, " of ", n);
      if (distinct_nbrs) VF_CHECK(s.insert(v).second, "graph:duplicate-neighbour", why, "vector ", u, " lists ", v, " twice");
    }
  }
}
static double recall_of(const std::vector<ID> &ids, size_t k, const std::vector<std::pair<double, ID>> &truth) {
  if (truth.empty()) return 1;
  size_t kk = std::min(k, truth.size()), hit = 0;
  double worst = truth[kk - 1].first;
  std::map<ID, double> dd;
  for (auto &[x, i] : truth) dd[i] = x;
  for (size_t i = 0; i < k; ++i)
    if (ids[i] != kNone && dd.count(ids[i]) && dd[ids[i]] <= worst + 1e-6 * (1 + std::fabs(worst))) ++hit;
  return static_cast<double>(std::min(hit, kk)) / kk;
}
template <class T>
static std::vector<std::pair<double, ID>> ranking(const Data<T> &d, const T *q, const std::function<bool(ID)> &ok) {
  std::vector<std::pair<double, ID>> t;
  for (ID i = 0; i < d.v.size(); ++i)
    if (!ok || ok(i)) t.push_back({d.dist(q, i), i});
  std::sort(t.begin(), t.end());
  return t;
}

template <class F>
static void batch(size_t n, size_t threads, F make_task) {  // what the bindings do for a batch
  std::vector<CpuID> cpus(threads);
  std::iota(cpus.begin(), cpus.end(), 0);
  auto sched = std::make_shared<Scheduler>(cpus);
  std::vector<coro::task<>> tasks;
  for (size_t i = 0; i < n; ++i) {
    tasks.emplace_back(make_task(i));
    sched->schedule(tasks.back().handle());
  }
  sched->begin();
  sched->join();
}

