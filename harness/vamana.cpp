// U01 Vamana graphs: form, reachability, recall, reproducibility, file round trip; U02 partitioned builds.
#include <omp.h>
#include <random>
#include <thread>
#include "vf.hpp"
#include "index/graph/vamana/budget_estimator.hpp"
#include "index/graph/vamana/build_dispatch.hpp"
#include "index/graph/vamana/kmeans_partition.hpp"
#include "index/graph/vamana/robust_prune.hpp"
#include "index/graph/vamana/shard_assigner.hpp"
#include "index/graph/vamana/shard_merger.hpp"
#include "index/graph/vamana/vamana_builder.hpp"
#include "index/graph/vamana/vamana_greedy_search.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "index/graph/vamana/vamana_writer.hpp"

using namespace vf;
using namespace alaya::vamana;
using Vec = std::vector<float>;
using Graph = std::vector<std::vector<uint32_t>>;

static double l2(const float *a, const float *b, size_t d) {
  double s = 0;
  for (size_t i = 0; i < d; ++i) s += (static_cast<double>(a[i]) - b[i]) * (static_cast<double>(a[i]) - b[i]);
  return s;
}
struct Data {
  size_t n, dim;
  int kind;
  Vec v;
  std::vector<Vec> centres;
  const float *at(size_t i) const { return v.data() + i * dim; }
  Vec query(Rng &r) const {
    Vec q(dim);
    const float *b = at(r.below(n));
    for (size_t i = 0; i < dim; ++i) q[i] = b[i] + static_cast<float>(r.gauss() * (kind == 1 ? 0.5 : 0.7));
    return q;
  }
};
static const char *kinds[] = {"gaussian", "clusters", "with-copies", "few-distinct", "grid"};
static Data dataset(Rng &r, size_t lo, size_t hi, int kind = -1) {
  static const size_t dims[] = {1, 2, 3, 4, 8, 12, 16, 17, 32, 50};
  Data d;
  d.kind = kind >= 0 ? kind : static_cast<int>(r.below(5));
  d.dim = dims[r.below(std::size(dims))];
  d.n = static_cast<size_t>(r.range(static_cast<int64_t>(lo), static_cast<int64_t>(hi)));
  for (int i = 0; i < 7; ++i) { Vec c(d.dim); for (auto &x : c) x = static_cast<float>(3 * r.gauss()); d.centres.push_back(c); }
  size_t distinct_n = d.kind == 3 ? 1 + r.below(5) : d.n;
  for (size_t i = 0; i < d.n; ++i) {
    Vec v(d.dim);
    if (i >= distinct_n || (d.kind == 2 && i && r.chance(0.2))) {
      size_t j = r.below(std::min(i, distinct_n));
      v.assign(d.at(j), d.at(j) + d.dim);
    } else {
      auto &c = d.centres[r.below(7)];
      for (size_t k = 0; k < d.dim; ++k) v[k] = d.kind == 4 ? static_cast<float>(r.range(-6, 6)) : static_cast<float>((d.kind == 1 ? c[k] : 0) + r.gauss());
    }
    d.v.insert(d.v.end(), v.begin(), v.end());
  }
  return d;
}
static std::string desc(const Data &d, uint32_t R, uint32_t L, float alpha, uint32_t th) {
  return cat("n=", d.n, " dim=", d.dim, " ", kinds[d.kind], " R=", R, " L=", L, " alpha=", alpha, " threads=", th);
}
static void well_formed(const std::string &d, const Graph &g, size_t n, uint32_t R, const char *tag) {
  VF_CHECK(g.size() == n, cat(tag, ":nodes"), d, " graph has ", g.size(), " nodes");
  for (size_t i = 0; i < g.size(); ++i) {
    std::set<uint32_t> s(g[i].begin(), g[i].end());
    VF_CHECK(s.size() == g[i].size(), cat(tag, ":repeated"), d, " node ", i, " lists a neighbour twice");
    VF_CHECK(g[i].size() <= R, cat(tag, ":degree"), d, " node ", i, " has ", g[i].size(), " neighbours");
    for (uint32_t x : g[i]) VF_CHECK(x < n && x != i, cat(tag, ":neighbour"), d, " node ", i, " has neighbour ", x);
    VF_CHECK(n < 2 || !g[i].empty(), cat(tag, ":isolated"), d, " node ", i, " has no neighbour");
    count("nodes_checked");
  }
}
// nodes whose value cannot be reached: identical vectors stand for each other
static size_t unreachable(const Data &d, const Graph &g, uint32_t start) {
  std::vector<char> seen(g.size());
  std::vector<uint32_t> q{start};
  seen[start] = 1;
  for (size_t i = 0; i < q.size(); ++i)
    for (uint32_t x : g[q[i]]) if (x < g.size() && !seen[x]) seen[x] = 1, q.push_back(x);
  std::set<Vec> vals;
  size_t lost = 0;
  for (uint32_t i : q) vals.insert(Vec(d.at(i), d.at(i) + d.dim));
  for (size_t i = 0; i < d.n; ++i) if (!seen[i]) lost += !vals.count(Vec(d.at(i), d.at(i) + d.dim));
  return lost;
}
static bool is_medoid(const Data &d, uint32_t m, double *got = nullptr, double *bestp = nullptr) {
  Vec c(d.dim);
  double scale = 0;
  for (size_t k = 0; k < d.dim; ++k) {
    double s = 0;
    for (size_t i = 0; i < d.n; ++i) s += d.at(i)[k], scale = std::max(scale, std::abs(static_cast<double>(d.at(i)[k])));
    c[k] = static_cast<float>(s / static_cast<double>(d.n));
  }
  double best = 1e300;
  for (size_t i = 0; i < d.n; ++i) best = std::min(best, l2(c.data(), d.at(i), d.dim));
  double mine = l2(c.data(), d.at(m), d.dim);
  if (got) *got = mine, *bestp = best;
  return mine <= best * (1 + 1e-5) + scale * scale * 1e-9;
}
struct Tally { double hit = 0, all = 0; };
static std::map<std::string, Tally> g_recall, g_lost;
static void floors(const std::map<std::string, double> &fl) {
  for (auto &[k, f] : fl) {
    auto &t = g_recall[k];
    if (t.all < 200) continue;
    VF_CHECK(t.hit / t.all >= f, cat("recall:", k), "over ", t.all, " expected answers recall is ", t.hit / t.all, ", floor ", f);
    sample(cat("recall ", k, " ", t.hit / t.all, " of ", t.all));
  }
  for (auto &[k, t] : g_lost) {
    if (t.all < 1 || k.ends_with("-thin")) continue;  // graphs of a few edges per node promise no reachability
    VF_CHECK(t.hit <= t.all * (k.ends_with("-clusters") ? 0.1 : 0.004) + 2, cat("reach:", k), t.hit, " of ", t.all, " vectors cannot be reached from the entry point");
    sample(cat("unreachable ", k, " ", t.hit, " of ", t.all));
  }
}
static void judge_search(Rng &r, const Data &d, const Graph &g, uint32_t start, const VamanaReader &rd, const std::string &ds, const char *tag, int nq, uint32_t R) {
  VamanaGreedySearch s(rd, d.v.data(), static_cast<uint32_t>(d.dim));
  size_t reach = 0;
  {
    std::vector<char> seen(g.size());
    std::vector<uint32_t> q{start};
    seen[start] = 1;
    for (size_t i = 0; i < q.size(); ++i) for (uint32_t x : g[q[i]]) if (!seen[x]) seen[x] = 1, q.push_back(x);
    reach = q.size();
  }
  for (int i = 0; i < nq; ++i) {
    Vec q = r.chance(0.3) ? Vec(d.at(0), d.at(0) + d.dim) : d.query(r);
    bool own = r.chance(0.3);
    uint32_t self = static_cast<uint32_t>(r.below(d.n));
    if (own) q.assign(d.at(self), d.at(self) + d.dim);
    uint32_t k = static_cast<uint32_t>(r.chance(0.2) ? r.range(1, static_cast<int64_t>(d.n) + 3) : r.range(1, 10));
    int how = static_cast<int>(r.below(3));
    uint32_t L = how == 0 ? static_cast<uint32_t>(d.n) + k : std::max<uint32_t>(k, static_cast<uint32_t>(how == 1 ? 64 : r.range(k, std::max<uint32_t>(k, 100))));
    auto hits = s.search(q.data(), k, L);
    eval();
    std::vector<double> all(d.n);
    for (size_t x = 0; x < d.n; ++x) all[x] = l2(q.data(), d.at(x), d.dim);
    std::vector<double> sorted = all;
    std::sort(sorted.begin(), sorted.end());
    double scale = sorted.back() + 1;
    std::set<uint32_t> ids;
    float prev = -1;
    size_t good = 0;
    size_t want = std::min<size_t>(k, d.n);
    VF_CHECK(hits.size() <= k && hits.size() >= std::min<size_t>(k, std::min<size_t>(reach, L)), cat(tag, ":count"), ds, " k=", k, " L=", L, " returned ", hits.size(), ", reachable ", reach);
    for (auto &h : hits) {
      VF_CHECK(h.id < d.n && ids.insert(h.id).second, cat(tag, ":id"), ds, " hit ", h.id, " invalid or repeated");
      if (h.id >= d.n) return;
      VF_CHECK(std::abs(h.distance - all[h.id]) <= all[h.id] * 1e-4 + scale * 1e-6, cat(tag, ":distance"), ds, " hit ", h.id, " at ", h.distance, ", true ", all[h.id]);
      VF_CHECK(h.distance >= prev, cat(tag, ":order"), ds, " hits out of order");
      prev = h.distance;
      good += all[h.id] <= sorted[want - 1] * (1 + 1e-4) + scale * 1e-6;
      count("answers");
    }
    if (L >= d.n && reach == d.n) {  // the whole graph is searched: exact
      VF_CHECK(hits.size() == want && good == want, cat(tag, ":exhaustive"), ds, " k=", k, " L=", L, ": ", good, " of ", want, " nearest found");
      count("exhaustive_searches");
    } else if (L >= 64 && d.kind != 3 && R >= 12) {
      auto &t = g_recall[d.kind == 1 ? cat(tag, "-clusters") : d.kind != 0 ? cat(tag, "-copies") : std::string(tag)];
      t.hit += static_cast<double>(good), t.all += static_cast<double>(std::min<size_t>(want, L));
    } else if (R < 12 && d.kind != 3) {
      auto &t = g_recall[cat(tag, "-thin")];
      t.hit += static_cast<double>(good), t.all += static_cast<double>(want);
    }
    distinct(Hash().add(ds).add(k).add(L).add(q.data(), q.size() * 4).get());
  }
}
static void round_trip(const std::string &ds, const Graph &g, uint32_t R, uint32_t start, const fs::path &p) {
  VamanaReader rd(p);
  VF_CHECK(rd.graph() == g && rd.start() == start && rd.max_degree() == R && rd.num_nodes() == g.size() && rd.frozen_pts() == 0, "file:round-trip", ds,
           " a saved graph reads back differently (start ", rd.start(), " expected ", start, ", degree ", rd.max_degree(), ")");
  count("round_trips");
}
struct Par { uint32_t R, L; float alpha; };
static Par params(Rng &r) {
  Par p;
  p.R = static_cast<uint32_t>(r.chance(0.25) ? r.range(3, 10) : r.range(12, 40));
  p.L = p.R + static_cast<uint32_t>(r.chance(0.3) ? 0 : r.below(80));
  p.L = std::max(p.L, r.chance(0.8) ? 40u : p.L);
  static const float al[] = {1.0F, 1.1F, 1.2F, 1.2F, 1.2F, 1.5F, 2.0F};
  p.alpha = al[r.below(std::size(al))];
  return p;
}
static void build(uint64_t c, Rng &r) {
  Data d = dataset(r, 2, c % 8 == 0 ? 12 : c % 3 == 0 ? 900 : 300);
  Par p = params(r);
  uint32_t th = static_cast<uint32_t>(r.range(1, 4));
  std::string ds = desc(d, p.R, p.L, p.alpha, th);
  VamanaBuildParams bp;
  bp.R = p.R, bp.L = p.L, bp.alpha = p.alpha, bp.num_threads = th, bp.seed = r.next();
  VamanaBuilder b(d.v.data(), d.n, static_cast<uint32_t>(d.dim), bp);
  b.build();
  well_formed(ds, b.graph(), d.n, p.R, "graph");
  double got = 0, best = 0;
  VF_CHECK(b.medoid() < d.n && is_medoid(d, b.medoid(), &got, &best), "graph:entry", ds, " entry point ", b.medoid(), " at ", got, " from the mean, the closest vector is at ", best);
  if (b.medoid() >= d.n) return;
  size_t lost = unreachable(d, b.graph(), b.medoid());
  auto &t = g_lost[p.R >= 12 ? d.kind == 1 ? "build-clusters" : "build" : "build-thin"];
  t.hit += static_cast<double>(lost), t.all += static_cast<double>(d.n);
  Tmp tmp("vam");
  save_graph(b.graph(), tmp.s("g.bin"), p.R, b.medoid());
  round_trip(ds, b.graph(), p.R, b.medoid(), tmp.s("g.bin"));
  VamanaReader rd(tmp.s("g.bin"));
  judge_search(r, d, b.graph(), b.medoid(), rd, ds, "search", 12, p.R);
  if (c % 2 == 0) {  // the same input, seed and a single thread
    bp.num_threads = 1;
    VamanaBuilder x(d.v.data(), d.n, static_cast<uint32_t>(d.dim), bp), y(d.v.data(), d.n, static_cast<uint32_t>(d.dim), bp);
    x.build(), y.build();
    VF_CHECK(x.graph() == y.graph() && x.medoid() == y.medoid(), "graph:reproducible", ds, " building twice with one thread gives different graphs");
    count("rebuilds");
  }
  // the path users take: from a vector file to a graph file
  if (c % 2 == 1) {
    {
      std::ofstream f(tmp.s("d.fbin"), std::ios::binary);
      uint32_t n = static_cast<uint32_t>(d.n), dim = static_cast<uint32_t>(d.dim);
      f.write(reinterpret_cast<char *>(&n), 4), f.write(reinterpret_cast<char *>(&dim), 4);
      f.write(reinterpret_cast<const char *>(d.v.data()), static_cast<std::streamsize>(d.v.size() * 4));
    }
    BuildVamanaParams bv;
    std::string in = tmp.s("d.fbin"), out = tmp.s("o.bin");
    bv.data_path = in, bv.output_path = out, bv.R = p.R, bv.L = std::max(p.L, p.R), bv.alpha = p.alpha, bv.num_threads = 1, bv.seed = bp.seed;
    build_vamana(bv);
    bp.num_threads = 1;
    VamanaBuilder x(d.v.data(), d.n, static_cast<uint32_t>(d.dim), bp);
    x.build();
    round_trip(ds, x.graph(), p.R, x.medoid(), out);
    count("file_builds");
  }
}
static void prune(uint64_t, Rng &r) {
  eval();
  Data d = dataset(r, 3, 120);
  uint32_t loc = static_cast<uint32_t>(r.below(d.n));
  std::vector<Neighbor> pool;
  std::vector<uint32_t> cand;
  for (uint32_t i = 0; i < d.n; ++i) if (r.chance(0.8) && (i != loc || r.chance(0.3))) cand.push_back(i);
  for (size_t i = cand.size(); i > 1; --i) std::swap(cand[i - 1], cand[r.below(i)]);
  auto dist = [&](uint32_t a, uint32_t b) { return static_cast<float>(l2(d.at(a), d.at(b), d.dim)); };
  for (uint32_t i : cand) pool.emplace_back(i, dist(loc, i));
  uint32_t R = static_cast<uint32_t>(r.range(1, 24)), maxc = r.chance(0.3) ? static_cast<uint32_t>(r.range(1, 40)) : 750;
  static const float al[] = {1.0F, 1.1F, 1.2F, 1.4F, 1.5F, 2.0F};
  float alpha = al[r.below(6)];
  std::vector<uint32_t> out;
  std::vector<float> scratch;
  prune_neighbors(loc, pool, alpha, R, maxc, out, scratch, dist);
  std::string ds = cat(desc(d, R, maxc, alpha, 0), " candidates=", cand.size());
  std::set<uint32_t> cs(cand.begin(), cand.end()), os(out.begin(), out.end());
  VF_CHECK(os.size() == out.size() && out.size() <= R, "prune:size", ds, " kept ", out.size(), " (", os.size(), " different)");
  for (uint32_t x : out) VF_CHECK(cs.count(x) && x != loc, "prune:member", ds, " kept ", x, " which was no candidate");
  std::vector<uint32_t> near;
  for (uint32_t x : cand) near.push_back(x);
  std::stable_sort(near.begin(), near.end(), [&](uint32_t a, uint32_t b) { float x = dist(loc, a), y = dist(loc, b); return x < y || (x == y && a < b); });
  if (near.size() > maxc) near.resize(maxc);
  for (uint32_t x : out) VF_CHECK(std::find(near.begin(), near.end(), x) != near.end(), "prune:beyond-pool", ds, " kept ", x, " beyond the ", maxc, " closest candidates");
  bool has_self = cs.count(loc);
  if (!near.empty() && near[0] != loc && !has_self) VF_CHECK(os.count(near[0]), "prune:nearest", ds, " dropped the closest candidate ", near[0]);
  if (out.size() < R && !has_self)  // whatever was dropped is covered by something kept and closer
    for (uint32_t x : near) {
      if (os.count(x)) continue;
      bool covered = false;
      for (uint32_t y : out) covered |= dist(loc, y) <= dist(loc, x) && (dist(x, y) == 0 || static_cast<double>(dist(loc, x)) >= static_cast<double>(dist(x, y)) * (1 - 1e-5));
      VF_CHECK(covered, "prune:uncovered", ds, " dropped ", x, " although no kept neighbour is closer to it and only ", out.size(), " were kept");
      count("covered_candidates");
    }
  // and what was kept after the first is not hidden at the strictest level by an earlier one, unless the relaxed levels were needed
  if (!has_self && alpha == 1.0F)
    for (size_t a = 0; a < out.size(); ++a)
      for (size_t b2 = a + 1; b2 < out.size(); ++b2) {
        double dj = dist(loc, out[b2]), djk = dist(out[a], out[b2]);
        VF_CHECK(djk > 0 && dj <= djk * (1 + 1e-5), "prune:kept-hidden", ds, " kept ", out[b2], " although ", out[a], " hides it");
      }
  distinct(Hash().add(out.data(), out.size() * 4).add(ds).get());
}
static void queue(uint64_t, Rng &r) {
  eval();
  NeighborPriorityQueue q;
  Hash h;
  for (int round = 0; round < 6; ++round) {
    size_t cap = r.chance(0.1) ? 0 : r.range(1, 40);
    q.clear();
    q.reserve(cap);
    std::vector<std::pair<float, uint32_t>> m;  // everything offered that is still in
    std::set<std::pair<float, uint32_t>> done;
    int span = static_cast<int>(r.range(1, 60));
    for (int i = 0; i < 150; ++i) {
      if (r.chance(0.7) || !q.has_unexpanded_node()) {
        uint32_t id = static_cast<uint32_t>(r.below(static_cast<uint64_t>(span)));
        std::pair<float, uint32_t> e{static_cast<float>((id * 7919u) % 13), id};  // one distance per id, many ties
        bool had = std::find(m.begin(), m.end(), e) != m.end();
        auto res = q.insert_with_result(Neighbor(e.second, e.first));
        bool in = !had && (m.size() < cap || (cap && e < m.back()));
        VF_CHECK(res.inserted == in, "queue:inserted", "cap ", cap, " insert ", id, " said ", res.inserted, " expected ", in);
        if (in) {
          bool full = m.size() == cap;
          VF_CHECK(res.evicted == full && (!full || res.evicted_id == m.back().second), "queue:evicted", "cap ", cap, " evicted ", res.evicted, " id ", res.evicted_id);
          if (full) done.erase(m.back()), m.pop_back();
          m.insert(std::upper_bound(m.begin(), m.end(), e), e);
        }
      } else {
        auto n = q.closest_unexpanded();
        auto it = std::find_if(m.begin(), m.end(), [&](auto &e) { return !done.count(e); });
        VF_CHECK(it != m.end() && it->second == n.id && it->first == n.distance, "queue:next", "handed out ", n.id, " expected ", it == m.end() ? ~0u : it->second);
        if (it != m.end()) done.insert(*it);
      }
      bool more = std::any_of(m.begin(), m.end(), [&](auto &e) { return !done.count(e); });
      VF_CHECK(q.has_unexpanded_node() == more, "queue:more", "has_unexpanded ", q.has_unexpanded_node(), " expected ", more);
      VF_CHECK(q.size() == m.size() && q.capacity() == cap, "queue:size", q.size(), " expected ", m.size());
      for (size_t k = 0; k < m.size() && k < q.size(); ++k) VF_CHECK(q[k].id == m[k].second && q[k].distance == m[k].first, "queue:content", "slot ", k);
      h.add(q.size());
    }
    count("queue_rounds");
  }
  distinct(h.add(r.next()).get());
}
// large enough for the parallel sections to use several threads
static void conc(uint64_t c, Rng &r) {
  Data d = dataset(r, 4200, tiered(5200, 9000), static_cast<int>(c % 3));
  d.dim = std::min<size_t>(d.dim, 16);
  d.v.resize(d.n * d.dim);
  Par p = params(r);
  p.R = std::min(p.R, 20u), p.L = std::max(p.R, 30u);
  uint32_t th = static_cast<uint32_t>(r.range(2, 4));
  std::string ds = desc(d, p.R, p.L, p.alpha, th);
  VamanaBuildParams bp;
  bp.R = p.R, bp.L = p.L, bp.alpha = p.alpha, bp.num_threads = th;
  VamanaBuilder b(d.v.data(), d.n, static_cast<uint32_t>(d.dim), bp);
  b.build();
  well_formed(ds, b.graph(), d.n, p.R, "conc-graph");
  VF_CHECK(is_medoid(d, b.medoid()), "conc-graph:entry", ds, " entry point ", b.medoid(), " is not nearest to the mean");
  auto &t = g_lost[p.R >= 12 ? d.kind == 1 ? "conc-clusters" : "conc" : "conc-thin"];
  t.hit += static_cast<double>(unreachable(d, b.graph(), b.medoid())), t.all += static_cast<double>(d.n);
  Tmp tmp("vamc");
  save_graph(b.graph(), tmp.s("g.bin"), p.R, b.medoid());
  VamanaReader rd(tmp.s("g.bin"));
  judge_search(r, d, b.graph(), b.medoid(), rd, ds, "conc-search", 6, p.R);
  // one searcher shared by several threads gives each of them the answers it gives one
  VamanaGreedySearch s(rd, d.v.data(), static_cast<uint32_t>(d.dim));
  std::vector<Vec> qs(24);
  std::vector<std::vector<GreedyHit>> ref(qs.size());
  for (size_t i = 0; i < qs.size(); ++i) qs[i] = d.query(r), ref[i] = s.search(qs[i].data(), 5 + static_cast<uint32_t>(i % 4), 30);
  std::vector<std::thread> ths;
  for (int w = 0; w < 3; ++w)
    ths.emplace_back([&, w] {
      for (size_t k = 0; k < qs.size() * 3; ++k) {
        size_t i = (k * 7 + static_cast<size_t>(w) * 5) % qs.size();
        auto got = s.search(qs[i].data(), 5 + static_cast<uint32_t>(i % 4), 30);
        bool same = got.size() == ref[i].size();
        for (size_t j = 0; same && j < got.size(); ++j) same = got[j].id == ref[i][j].id && got[j].distance == ref[i][j].distance;
        VF_CHECK(same, "conc-search:shared", ds, " a search gives another answer when other threads search too");
        count("shared_searches");
      }
    });
  for (auto &x : ths) x.join();
}

// ---------------------------------------------------------------- U02
static void fbin(const fs::path &p, const Data &d) {
  std::ofstream f(p, std::ios::binary);
  uint32_t n = static_cast<uint32_t>(d.n), dim = static_cast<uint32_t>(d.dim);
  f.write(reinterpret_cast<char *>(&n), 4), f.write(reinterpret_cast<char *>(&dim), 4);
  f.write(reinterpret_cast<const char *>(d.v.data()), static_cast<std::streamsize>(d.v.size() * 4));
}
static std::vector<uint32_t> u32s(const fs::path &p) {
  auto raw = slurp(p);
  std::vector<uint32_t> v(raw.size() / 4);
  std::memcpy(v.data(), raw.data(), v.size() * 4);
  return v;
}
// the parts: centroids, assignment, merge
static void parts(uint64_t c, Rng &r) {
  eval();
  Data d = dataset(r, 12, c % 4 == 0 ? 900 : 250);
  Tmp t("parts");
  fbin(t.s("d.fbin"), d);
  std::string ds = cat("n=", d.n, " dim=", d.dim, " ", kinds[d.kind]);
  size_t block = r.chance(0.6) ? static_cast<size_t>(r.range(1, static_cast<int64_t>(d.n) + 5)) : 1000000;
  uint32_t med = compute_medoid_streaming(t.s("d.fbin"), block);
  double got = 0, best = 0;
  VF_CHECK(med < d.n && is_medoid(d, med, &got, &best), "parts:medoid", ds, " block ", block, ": entry point ", med, " at ", got, " from the mean, the closest vector is at ", best);
  size_t centers = static_cast<size_t>(r.range(1, std::min<int64_t>(9, static_cast<int64_t>(d.n))));
  size_t kb = static_cast<size_t>(r.range(1, std::min<int64_t>(3, static_cast<int64_t>(centers))));
  KMeansParams kp;
  kp.num_centers = centers, kp.seed = r.next(), kp.max_reps = static_cast<size_t>(r.range(0, 12));
  Vec piv(centers * d.dim), piv2(centers * d.dim);
  kmeans_train(d.v.data(), d.n, d.dim, kp, piv.data());
  kmeans_train(d.v.data(), d.n, d.dim, kp, piv2.data());
  double pscale = 0;
  for (float x : d.v) pscale = std::max(pscale, std::abs(static_cast<double>(x)));
  for (float x : piv) VF_CHECK(std::abs(x) <= pscale * 1.001 + 1e-6, "parts:pivot-range", ds, " a centroid coordinate ", x, " lies outside the data");
  VF_CHECK(piv == piv2, "parts:reproducible", ds, " k-means with one seed gives different centroids");
  // closest centroids
  size_t nb = std::min<size_t>(d.n, 400);
  std::vector<uint32_t> cl(nb * kb);
  compute_closest_centers(d.v.data(), nb, d.dim, piv.data(), centers, kb, cl.data());
  double tol = pscale * pscale * static_cast<double>(d.dim) * 1e-5 + 1e-9;
  auto closest_ok = [&](size_t i, const std::vector<uint32_t> &got_ids, const char *what) {
    std::vector<double> all(centers);
    for (size_t k = 0; k < centers; ++k) all[k] = l2(d.at(i), &piv[k * d.dim], d.dim);
    std::vector<double> so = all;
    std::sort(so.begin(), so.end());
    std::set<uint32_t> uniq(got_ids.begin(), got_ids.end());
    VF_CHECK(got_ids.size() == kb && uniq.size() == kb && *uniq.rbegin() < centers, "parts:closest-ids", what, " ", ds, " vector ", i, " got ", uniq.size(), " different centroids of ", kb);
    if (got_ids.size() != kb || *uniq.rbegin() >= centers) return;
    for (uint32_t k : got_ids) VF_CHECK(all[k] <= so[kb - 1] + tol, "parts:closest", what, " ", ds, " vector ", i, " assigned to a centroid at ", all[k], ", the ", kb, " closest end at ", so[kb - 1]);
    count("assignments");
  };
  for (size_t i = 0; i < nb; ++i) {
    std::vector<uint32_t> ids(cl.begin() + static_cast<long>(i * kb), cl.begin() + static_cast<long>((i + 1) * kb));
    closest_ok(i, ids, "compute_closest_centers");
    for (size_t k = 1; k < kb; ++k)
      VF_CHECK(l2(d.at(i), &piv[ids[k - 1] * d.dim], d.dim) <= l2(d.at(i), &piv[ids[k] * d.dim], d.dim) + tol, "parts:closest-order", ds, " vector ", i);
  }
  // every vector lands in exactly its closest shards, whole and in order
  auto res = shard_data_by_centroids(t.s("d.fbin"), piv.data(), centers, kb, fs::path(t.s("w")) / "s", block);
  std::vector<std::vector<uint32_t>> where(d.n);
  std::vector<std::vector<uint32_t>> idmap(centers);
  for (size_t s = 0; s < centers; ++s) {
    auto im = u32s(res.idmap_paths[s]);
    auto raw = slurp(res.data_paths[s]);
    uint32_t hn = 0, hd = 0;
    if (raw.size() >= 8) std::memcpy(&hn, raw.data(), 4), std::memcpy(&hd, raw.data() + 4, 4);
    VF_CHECK(im.size() >= 2 && im[0] == im.size() - 2 && hn == im[0] && hd == d.dim && raw.size() == 8 + 4ull * hn * d.dim && res.counts[s] == hn, "parts:shard-header", ds, " shard ", s,
             " headers: map ", im.empty() ? 0 : im[0], " data ", hn, "x", hd, " bytes ", raw.size(), " count ", res.counts[s]);
    if (im.size() < 2 || raw.size() != 8 + 4ull * (im.size() - 2) * d.dim) return;
    for (size_t k = 2; k < im.size(); ++k) {
      VF_CHECK(im[k] < d.n && (k == 2 || im[k] > im[k - 1]), "parts:shard-ids", ds, " shard ", s, " entry ", k - 2, " is ", im[k]);
      if (im[k] >= d.n) return;
      where[im[k]].push_back(static_cast<uint32_t>(s)), idmap[s].push_back(im[k]);
      VF_CHECK(!std::memcmp(raw.data() + 8 + (k - 2) * d.dim * 4, d.at(im[k]), d.dim * 4), "parts:shard-data", ds, " shard ", s, " holds other bytes for vector ", im[k]);
    }
  }
  for (size_t i = 0; i < d.n; ++i) closest_ok(i, where[i], "shard_data_by_centroids");
  // the merge of arbitrary shard graphs
  uint32_t R = static_cast<uint32_t>(r.range(2, 20));
  std::vector<fs::path> gp, ip;
  std::vector<std::set<uint32_t>> want(d.n);
  std::vector<uint32_t> meds;
  for (size_t s = 0; s < centers; ++s) {
    auto &im = idmap[s];
    if (im.empty()) continue;
    Graph g(im.size());
    for (size_t i = 0; i < im.size(); ++i) {
      size_t deg = r.below(R + 1);
      for (size_t k = 0; k < deg; ++k) {
        uint32_t x = static_cast<uint32_t>(r.below(im.size()));
        if (x == i && r.chance(0.9)) continue;
        g[i].push_back(x);
        if (x != i) want[im[i]].insert(im[x]);
      }
    }
    uint32_t sm = static_cast<uint32_t>(r.below(im.size()));
    meds.push_back(im[sm]);
    save_graph(g, t.s(cat("g", s)), R, sm);
    gp.push_back(t.s(cat("g", s))), ip.push_back(res.idmap_paths[s]);
  }
  uint32_t start = static_cast<uint32_t>(r.below(d.n));
  uint64_t seed = r.next();
  uint64_t bytes = merge_shards(gp, ip, t.s("m.bin"), R, start, seed);
  merge_shards(gp, ip, t.s("m2.bin"), R, start, seed);
  auto raw = slurp(t.s("m.bin"));
  VF_CHECK(raw == slurp(t.s("m2.bin")), "parts:merge-reproducible", ds, " merging twice with one seed gives different graphs");
  VF_CHECK(raw.size() == bytes, "parts:merge-bytes", ds, " file of ", raw.size(), " bytes, reported ", bytes);
  uint64_t fsz = 0, fr = 1;
  uint32_t mr = 0, ms = 0;
  if (raw.size() >= 24) std::memcpy(&fsz, raw.data(), 8), std::memcpy(&mr, raw.data() + 8, 4), std::memcpy(&ms, raw.data() + 12, 4), std::memcpy(&fr, raw.data() + 16, 8);
  VF_CHECK(fsz == raw.size() && mr == R && ms == start && fr == 0, "parts:merge-header", ds, " header: size ", fsz, " of ", raw.size(), " degree ", mr, "/", R, " start ", ms, "/", start);
  size_t off = 24;
  for (size_t i = 0; i < d.n; ++i) {
    uint32_t k = 0;
    if (off + 4 > raw.size()) { VF_CHECK(false, "parts:merge-nodes", ds, " merged graph ends at node ", i); return; }
    std::memcpy(&k, raw.data() + off, 4);
    off += 4;
    if (off + 4ull * k > raw.size()) { VF_CHECK(false, "parts:merge-nodes", ds, " merged graph ends in node ", i); return; }
    std::vector<uint32_t> nb2(k);
    std::memcpy(nb2.data(), raw.data() + off, 4ull * k);
    off += 4ull * k;
    std::set<uint32_t> s(nb2.begin(), nb2.end());
    VF_CHECK(s.size() == nb2.size() && nb2.size() == std::min<size_t>(R, want[i].size()), "parts:merge-degree", ds, " node ", i, " keeps ", nb2.size(), " (", s.size(), " different) of ", want[i].size(),
             " merged neighbours, bound ", R);
    for (uint32_t x : nb2) VF_CHECK(want[i].count(x), "parts:merge-neighbour", ds, " node ", i, " gained neighbour ", x);
    count("merged_nodes");
  }
  VF_CHECK(off == raw.size(), "parts:merge-trailing", ds, " ", raw.size() - off, " bytes behind the last node");
  distinct(Hash().add(raw.data(), raw.size()).get());
}
// how many parts a budget needs, and the whole build through parts
static void whole(uint64_t c, Rng &r) {
  Data d = c % 6 == 0 ? dataset(r, 40, 160, 3) : dataset(r, 60, tiered(600, 1500), c % 6 == 1 ? 2 : std::array<int, 3>{0, 1, 4}[r.below(3)]);
  if (c % 6 == 2) d = dataset(r, 1200, 1800);
  Tmp t("whole");
  fbin(t.s("d.fbin"), d);
  Par p = params(r);
  p.R = std::max(p.R, 6u), p.L = std::max(p.L, p.R);
  double full = estimate_ram_usage_gib(d.n, static_cast<uint32_t>(d.dim), 4, p.R);
  float budget = static_cast<float>(full * (0.55 + 0.44 * r.unit()));
  uint32_t th = static_cast<uint32_t>(r.range(1, 3));
  std::string ds = cat(desc(d, p.R, p.L, p.alpha, th), " budget ", budget / full, " of ", full);
  if (d.kind != 3 && c % 2 == 0) {
    BudgetLoopParams bp;
    bp.graph_degree = p.R, bp.sampling_rate = 1.0, bp.ram_budget_gib = full * (0.3 + 0.7 * r.unit()), bp.base_kmeans.seed = r.next();
    Vec piv;
    size_t np = determine_num_parts_with_ram_budget(d.v.data(), d.n, d.v.data(), d.n, d.dim, bp, piv);
    auto res = shard_data_by_centroids(t.s("d.fbin"), piv.data(), np, 2, fs::path(t.s("b")) / "s");
    VF_CHECK(piv.size() == np * d.dim && np >= 2, "budget:pivots", ds, " ", np, " parts with ", piv.size(), " centroid values");
    for (size_t s = 0; s < np; ++s)
      VF_CHECK(estimate_ram_usage_gib(res.counts[s], static_cast<uint32_t>(d.dim), 4, p.R) <= bp.ram_budget_gib * 1.02, "budget:exceeded", ds, " part ", s, " of ", np, " with ", res.counts[s],
               " vectors exceeds the budget ", bp.ram_budget_gib);
    count("budgets");
    fs::remove_all(t.s("b"));
  }
  BuildVamanaParams bv;
  std::string in = t.s("d.fbin");
  fs::create_directories(t.s("out"));
  std::string out = t.s("out/o.bin");
  bv.data_path = in, bv.output_path = out, bv.R = p.R, bv.L = p.L, bv.alpha = p.alpha, bv.num_threads = th, bv.seed = r.next(), bv.build_dram_budget_gb = budget;
  try {
    build_vamana(bv);
  } catch (const std::runtime_error &e) {
    // no number of parts separates equal vectors: a budget below them is refused, and nothing is left that looks like a graph
    bool refusal = std::strstr(e.what(), "num_parts exceeds") || std::strstr(e.what(), "max_num_parts hit");
    VF_CHECK(refusal && (d.kind == 2 || d.kind == 3 || d.kind == 4), "merged:refused", ds, " not built: ", e.what());
    VF_CHECK(!fs::exists(out), "merged:refused-output", ds, " refused and left a graph");
    count("refused_builds");
    return;
  }
  eval();
  count(fs::exists(out + "_medoids.bin") ? "partitioned_builds" : "single_builds");
  VamanaReader rd(out);
  Graph g = rd.graph();
  well_formed(ds, g, d.n, p.R, "merged");
  VF_CHECK(rd.max_degree() == p.R, "merged:header", ds, " header degree ", rd.max_degree());
  VF_CHECK(rd.start() < d.n && is_medoid(d, rd.start()), "merged:entry", ds, " entry point ", rd.start(), " is not nearest to the mean");
  if (g.size() != d.n) return;
  if (d.kind != 3) {
    auto &tl = g_lost[p.R >= 12 ? d.kind == 1 ? "merged-clusters" : "merged" : "merged-thin"];
    tl.hit += static_cast<double>(unreachable(d, g, rd.start())), tl.all += static_cast<double>(d.n);
  }
  judge_search(r, d, g, rd.start(), rd, ds, "merged-search", 15, p.R);
  if (c % 3 == 0 && th == 1) {
    std::string out2 = t.s("out/o2.bin");
    bv.output_path = out2;
    build_vamana(bv);
    VF_CHECK(slurp(out) == slurp(out2), "merged:reproducible", ds, " building twice gives different graphs");
    count("rebuilds");
  }
}

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  init(argc, argv);
  auto &m = ctx().mode;
  if (m == "build") {
    cases("build", tiered(150, 1500), build);
    cases("prune", tiered(1500, 20000), prune);
    cases("queue", tiered(100, 2000), queue);
    floors({{"search", 0.97}, {"search-copies", 0.6}, {"search-clusters", 0.8}, {"search-thin", 0.2}});
  } else if (m == "conc") {
    cases("conc", tiered(10, 60), conc);
    floors({{"conc-search", 0.97}, {"conc-search-copies", 0.6}, {"conc-search-clusters", 0.8}, {"conc-search-thin", 0.2}});
  } else if (m == "part") {
    cases("parts", tiered(120, 1500), parts);
    cases("whole", tiered(60, 500), whole);
    floors({{"merged-search", 0.97}, {"merged-search-copies", 0.6}, {"merged-search-clusters", 0.8}, {"merged-search-thin", 0.2}});
  }
  return finish();
}
