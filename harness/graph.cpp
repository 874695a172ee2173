// G01: the graph search contract. Every answer is compared with the data itself.
#include "graph_common.hpp"

// ---------------------------------------------------------------- G01
// recall is a statistical claim: judged over all queries of a kind, not per query
struct Recall {
  double sum = 0;
  size_t n = 0;
  double worst = 1;
  std::string who;
};
static std::map<std::string, Recall> g_recall;
static void recall_add(const std::string &kind, double v, const std::string &who) {
  auto &x = g_recall[kind];
  x.sum += v, ++x.n;
  if (v < x.worst) x.worst = v, x.who = who;
}
static void recall_judge(const std::map<std::string, double> &floor) {
  for (auto &[k, x] : g_recall) {
    if (x.n < 20) continue;
    double avg = x.sum / x.n, f = 0.9;
    for (auto &[p, v] : floor) if (k.compare(0, p.size(), p) == 0) f = v;
    VF_CHECK(avg >= f, cat("recall:", k), "mean recall ", avg, " over ", x.n, " queries, expected at least ", f, "; worst ", x.worst, " at ", x.who);
    sample(cat("recall ", k, ": ", avg, " over ", x.n, " queries"));
  }
}

template <class S, class B, class T>
struct Index {  // a graph over build space B searched through space S
  std::shared_ptr<B> build;
  std::shared_ptr<S> space;
  std::shared_ptr<Graph<T, ID>> graph;
  std::shared_ptr<GraphSearchJob<S, B>> job;
};
template <class S, class B, class T>
static Index<S, B, T> make_index(const Data<T> &d, const std::string &builder, uint32_t R, uint32_t L, uint32_t threads, size_t cap) {
  Index<S, B, T> x;
  auto f = d.flat();
  x.build = std::make_shared<B>(static_cast<ID>(cap), d.dim, d.m);
  x.build->fit(f.data(), static_cast<ID>(d.v.size()));
  if constexpr (std::is_same_v<S, B>) x.space = x.build;
  else {
    x.space = std::make_shared<S>(static_cast<ID>(cap), d.dim, d.m);
    x.space->fit(f.data(), static_cast<ID>(d.v.size()));
  }
  if (builder == "hnsw") x.graph = HNSWBuilder<B>(x.build, R, L).build_graph(threads);
  else if constexpr (std::is_same_v<B, Raw>) {
    if (builder == "nsg") x.graph = NSGBuilder<B>(x.build, R, L).build_graph(threads);
    else x.graph = FusionGraphBuilder<B, HNSWBuilder<B>, NSGBuilder<B>>(x.build, R, L).build_graph(threads);
  }
  x.job = std::make_shared<GraphSearchJob<S, B>>(x.space, x.graph, nullptr, x.build);
  return x;
}

template <class S, class B, class T>
static void graph_case(uint64_t c, Rng &r, const char *tn, bool metrics_all) {
  static const std::array<size_t, 8> small = {1, 2, 3, 5, 9, 17, 33, 40};
  std::string builder = "hnsw";
  if constexpr (std::is_same_v<B, Raw> && std::is_same_v<S, Raw>) builder = std::array{"hnsw", "nsg", "fusion"}[c % 3];
  bool tiny = c % 4 == 3;
  size_t n = tiny ? small[r.below(small.size())] : (builder == "hnsw" || c % 5 == 0 ? 60 : 150) + r.below(tiered(500, 2500));
  if (builder == "fusion") n = std::max<size_t>(n, 2);
  size_t dim = std::array<size_t, 9>{1, 2, 3, 8, 15, 16, 33, 64, 100}[r.below(9)];
  MetricType m = std::is_floating_point_v<T> && metrics_all ? std::array{MetricType::L2, MetricType::L2, MetricType::IP, MetricType::COS}[r.below(4)] : MetricType::L2;
  if (m != MetricType::L2) dim = std::max<size_t>(dim, 8);
  int kind = static_cast<int>(r.below(4));
  uint32_t R = std::array<uint32_t, 3>{16, 32, 48}[r.below(3)], L = 100 + static_cast<uint32_t>(r.below(100));
  auto d = make_data<T>(r, n, dim, m, kind);
  size_t cap = n + r.below(50);
  std::string why = cat(tn, " ", builder, " n=", n, " dim=", dim, " ", mname(m), " data ", kind, " R=", R, ": ");
  progress(why);
  auto x = make_index<S, B, T>(d, builder, R, L, 1 + r.below(3), cap);
  well_formed(*x.graph, n, why, builder == "hnsw");
  eval();
  size_t nq = tiny ? 6 : 10;
  std::vector<std::vector<T>> qs;
  for (size_t i = 0; i < nq; ++i) {
    if (i % 3 == 0) qs.push_back(d.v[r.below(n)]);
    else {  // near the data, as queries are
      auto q = d.v[r.below(n)];
      for (auto &y : q) y = static_cast<T>(y + (std::is_floating_point_v<T> ? 0.3 * r.gauss() * (m == MetricType::L2 ? 1 : 1 / std::sqrt(dim)) : r.range(-10, 10)));
      qs.push_back(q);
    }
  }
  uint32_t k = 1 + static_cast<uint32_t>(r.below(12));
  uint32_t ef = std::max<uint32_t>(k, 64);
  uint32_t full = std::max<uint32_t>(k, static_cast<uint32_t>(n));
  std::vector<std::vector<ID>> solo;
  std::vector<std::vector<float>> solod;
  std::vector<uint32_t> efs;
  for (size_t i = 0; i < nq; ++i) {
    uint32_t e = i % 2 ? ef : full;
    efs.push_back(e);
    std::vector<ID> ids(k, 7), ids2(k, 7), ids3(k, 7);
    std::vector<float> ds(k, 7);
    std::string w = cat(why, "query ", i, " k=", k, " ef=", e, " ");
    Judge<T> judge{d, {}, nullptr, nullptr, k, w};
    if constexpr (!std::is_same_v<S, B>) {}
    auto q = qs[i];
    x.job->search_solo(q.data(), ids.data(), ds.data(), k, e);
    size_t got = judge(q.data(), ids, &ds);
    for (size_t j = got; j < k; ++j) VF_CHECK(ds[j] == std::numeric_limits<float>::max(), "result:hole", w, "empty rank ", j, " has distance ", ds[j]);
    x.job->search_solo(q.data(), ids2.data(), k, e);
    VF_CHECK(ids == ids2, "result:with-distances", w, "the answer differs when distances are asked for");
    x.job->search_solo(q.data(), ids3.data(), SearchInfo{.topk_ = k, .ef_ = e}, nullptr);
    VF_CHECK(ids == ids3, "result:searchinfo", w, "the answer differs through SearchInfo");
    VF_CHECK(q == qs[i], "query:modified", w, "the query was modified");
    VF_CHECK(got > 0, "result:empty", w, "no result at all");
    if (got == 0) return;
    auto in = closure(*x.graph, n, ids[0]);
    size_t reach = std::accumulate(in.begin(), in.end(), size_t{0});
    VF_CHECK(got >= std::min<size_t>(k, reach), "result:too-few", w, got, " results although ", reach, " vectors are connected to the first");
    if (e >= n) {  // whatever is connected to a visited vector has been visited: nothing nearer can be missing
      count("exhaustive_answers");
      double mg, last = got < k ? 1e300 : d.dist(q.data(), ids[got - 1], &mg);
      std::set<ID> have(ids.begin(), ids.begin() + static_cast<long>(got));
      for (ID v = 0; v < n; ++v)
        if (in[v] && !have.count(v)) {
          double mg2, e2 = d.dist(q.data(), v, &mg2);
          VF_CHECK(e2 >= last - 4e-5 * (mg + mg2) - 1e-6, "result:not-nearest", w, "id ", v, " at ", e2, " is missing, last returned is at ", last);
        }
    }
    auto truth = ranking<T>(d, q.data(), nullptr);
    if (!tiny && !(dim < 3 && kind == 3)) recall_add(cat(tn, "-", builder), recall_of(ids, k, truth), w);
    solo.push_back(ids);
    solod.push_back(ds);
  }
  // the same answers from a batch of coroutines, with and without distances
  for (int withd = 0; withd < 2; ++withd) {
    std::vector<std::vector<ID>> out(nq, std::vector<ID>(k, 9));
    std::vector<std::vector<float>> outd(nq, std::vector<float>(k, 9));
    auto q = qs;
    batch(nq, 1 + r.below(4), [&](size_t i) {
      return withd ? x.job->search(q[i].data(), out[i].data(), outd[i].data(), k, efs[i]) : x.job->search(q[i].data(), out[i].data(), k, efs[i]);
    });
    for (size_t i = 0; i < nq; ++i) {
      VF_CHECK(out[i] == solo[i], "batch:differs", why, "query ", i, " k=", k, " ef=", efs[i], ": the batch returns other ids than the single search");
      if (withd) VF_CHECK(outd[i] == solod[i], "batch:distances", why, "query ", i, ": the batch returns other distances than the single search");
    }
    count("batch_answers", nq);
  }
  // several threads
  {
    std::vector<std::vector<ID>> out(nq, std::vector<ID>(k, 9));
    std::vector<std::thread> th;
    for (size_t t = 0; t < 4; ++t)
      th.emplace_back([&, t] {
        for (size_t i = t; i < nq; i += 4) { auto q = qs[i]; x.job->search_solo(q.data(), out[i].data(), k, efs[i]); }
      });
    for (auto &t : th) t.join();
    for (size_t i = 0; i < nq; ++i) VF_CHECK(out[i] == solo[i], "threads:differ", why, "query ", i, ": a concurrent search returns other ids");
  }
  // blocked ids
  {
    DynamicBitset blocked(n);
    std::vector<char> bl(n, 0);
    double p = std::array{0.1, 0.5, 0.9, 0.99}[r.below(4)];
    for (size_t i = 0; i < n; ++i) if (r.chance(p)) blocked.set(i), bl[i] = 1;
    for (size_t i = 0; i < nq; i += 2) {
      std::vector<ID> ids(k, 7);
      auto q = qs[i];
      std::string w = cat(why, "blocked query ", i, " k=", k, " ef=", full, " ");
      Judge<T> judge{d, {}, [&](ID v) { return !bl[v]; }, nullptr, k, w};
      x.job->search_solo(q.data(), ids.data(), SearchInfo{.topk_ = k, .ef_ = full}, &blocked);
      size_t got = judge(q.data(), ids, nullptr);
      auto in = closure(*x.graph, n, solo[i][0]);
      size_t reach = 0;
      double mg, last = got < k ? 1e300 : d.dist(q.data(), ids[got - 1], &mg);
      std::set<ID> have(ids.begin(), ids.begin() + static_cast<long>(got));
      for (ID v = 0; v < n; ++v)
        if (in[v] && !bl[v]) {
          ++reach;
          double mg2, e2 = d.dist(q.data(), v, &mg2);
          if (!have.count(v)) VF_CHECK(e2 >= last - 4e-5 * (mg + mg2) - 1e-6, "result:not-nearest", w, "unblocked id ", v, " at ", e2, " is missing, last is at ", last);
        }
      VF_CHECK(got >= std::min<size_t>(k, reach), "result:too-few", w, got, " results although ", reach, " unblocked vectors are connected");
    }
  }
  // a search that cannot be answered is refused
  try {
    std::vector<ID> ids(k, 7);
    x.job->search_solo(qs[0].data(), ids.data(), k, k - 1);
    violation("result:refusal", cat(why, "ef < k accepted"));
  } catch (const std::invalid_argument &) {}
  // reload
  {
    Tmp t("g");
    x.graph->save((t.p / "graph").string());
    x.build->save((t.p / "build").string());
    Index<S, B, T> y;
    y.graph = std::make_shared<Graph<T, ID>>();
    y.graph->load((t.p / "graph").string());
    y.build = std::make_shared<B>();
    y.build->load((t.p / "build").string());
    if constexpr (std::is_same_v<S, B>) y.space = y.build;
    else {
      x.space->save((t.p / "space").string());
      y.space = std::make_shared<S>();
      y.space->load((t.p / "space").string());
    }
    y.job = std::make_shared<GraphSearchJob<S, B>>(y.space, y.graph, nullptr, y.build);
    for (size_t i = 0; i < nq; ++i) {
      std::vector<ID> ids(k, 7);
      std::vector<float> ds(k, 7);
      auto q = qs[i];
      y.job->search_solo(q.data(), ids.data(), ds.data(), k, efs[i]);
      VF_CHECK(ids == solo[i] && ds == solod[i], "reload:differs", why, "query ", i, ": the reloaded index answers differently");
    }
    count("reloads");
  }
  Hash h;
  h.add(std::string(tn)).add(builder).add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(dim)).add(static_cast<int>(m)).add(static_cast<uint64_t>(k));
  for (auto &s : solo) for (auto i : s) h.add(static_cast<uint64_t>(i));
  distinct(h.get());
  if (c < 4) sample(why);
}

static void rabitq_case(uint64_t c, Rng &r) {
  size_t n = c % 4 == 3 ? 1 + r.below(60) : 80 + r.below(tiered(500, 3000));
  size_t dim = std::array<size_t, 5>{64, 65, 100, 128, 200}[r.below(5)];
  if (c % 8 == 5) dim = c % 16 == 5 ? 1024 : 2048, n = std::min<size_t>(n, 300);
  MetricType m = std::array{MetricType::L2, MetricType::L2, MetricType::IP, MetricType::COS}[r.below(4)];
  int kind = static_cast<int>(r.below(3));
  auto d = make_data<float>(r, n, dim, m, kind);
  std::string why = cat("rabitq n=", n, " dim=", dim, " ", mname(m), " data ", kind, ": ");
  progress(why);
  auto f = d.flat();
  auto sp = std::make_shared<Rbq>(static_cast<ID>(n + r.below(20)), dim, m);
  sp->fit(f.data(), static_cast<ID>(n));
  QGBuilder<Rbq>(sp).build_graph();
  auto job = std::make_shared<GraphSearchJob<Rbq>>(sp, nullptr);
  eval();
  uint32_t k = 1 + static_cast<uint32_t>(r.below(12)), ef = std::max<uint32_t>(k, 100), full = static_cast<uint32_t>(8 * n + k);
  std::vector<std::vector<float>> qs;
  std::vector<std::vector<ID>> solo;
  std::vector<uint32_t> efs;
  for (size_t i = 0; i < 10; ++i) {
    auto q = d.v[r.below(n)];
    if (i % 3) for (auto &y : q) y += static_cast<float>(0.3 * r.gauss() * (m == MetricType::L2 ? 1 : 1 / std::sqrt(dim)));
    uint32_t e = i % 2 ? ef : full;
    efs.push_back(e);
    std::vector<ID> ids(k, 7), ids2(k, 7);
    std::string w = cat(why, "query ", i, " k=", k, " ef=", e, " ");
    Judge<float> judge{d, {}, nullptr, nullptr, k, w};
    job->rabitq_search_solo(q.data(), k, ids.data(), e);
    size_t got = judge(q.data(), ids, nullptr);
    VF_CHECK(got > 0, "result:empty", w, "no result at all");
    job->rabitq_search_solo(q.data(), k, ids2.data(), SearchInfo{.topk_ = k, .ef_ = e}, nullptr);
    VF_CHECK(ids == ids2, "result:searchinfo", w, "the answer differs through SearchInfo");
    if (n >= 80) {
      VF_CHECK(got == k, "result:too-few", w, got, " results of ", n, " vectors");
      recall_add("rabitq", recall_of(ids, k, ranking<float>(d, q.data(), nullptr)), w);
    } else if (e == full) {
      VF_CHECK(got == std::min<size_t>(k, n), "result:too-few", w, got, " results of ", n, " vectors");
    }
    qs.push_back(q);
    solo.push_back(ids);
  }
  std::vector<std::vector<ID>> out(qs.size(), std::vector<ID>(k, 9));
  batch(qs.size(), 1 + r.below(4), [&](size_t i) { return job->rabitq_search(qs[i].data(), k, out[i].data(), efs[i]); });
  for (size_t i = 0; i < qs.size(); ++i) VF_CHECK(out[i] == solo[i], "batch:differs", why, "query ", i, " k=", k, ": the batch returns other ids than the single search");
  count("batch_answers", qs.size());
  {
    std::vector<std::vector<ID>> o2(qs.size(), std::vector<ID>(k, 9));
    std::vector<std::thread> th;
    for (size_t t = 0; t < 4; ++t)
      th.emplace_back([&, t] { for (size_t i = t; i < qs.size(); i += 4) job->rabitq_search_solo(qs[i].data(), k, o2[i].data(), efs[i]); });
    for (auto &t : th) t.join();
    for (size_t i = 0; i < qs.size(); ++i) VF_CHECK(o2[i] == solo[i], "threads:differ", why, "query ", i, ": a concurrent search returns other ids");
  }
  {
    DynamicBitset blocked(n);
    std::vector<char> bl(n, 0);
    double p = std::array{0.1, 0.5, 0.9}[r.below(3)];
    for (size_t i = 0; i < n; ++i) if (r.chance(p)) blocked.set(i), bl[i] = 1;
    for (size_t i = 0; i < qs.size(); i += 2) {
      std::vector<ID> ids(k, 7);
      Judge<float> judge{d, {}, [&](ID v) { return !bl[v]; }, nullptr, k, cat(why, "blocked query ", i, " k=", k, " ")};
      job->rabitq_search_solo(qs[i].data(), k, ids.data(), SearchInfo{.topk_ = k, .ef_ = full}, &blocked);
      judge(qs[i].data(), ids, nullptr);
    }
  }
  {
    Tmp t("g");
    sp->save((t.p / "s").string());
    auto sp2 = std::make_shared<Rbq>();
    sp2->load((t.p / "s").string());
    GraphSearchJob<Rbq> job2(sp2, nullptr);
    for (size_t i = 0; i < qs.size(); ++i) {
      std::vector<ID> ids(k, 7);
      job2.rabitq_search_solo(qs[i].data(), k, ids.data(), efs[i]);
      VF_CHECK(ids == solo[i], "reload:differs", why, "query ", i, ": the reloaded index answers differently");
    }
    count("reloads");
  }
  Hash h;
  h.add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(dim)).add(static_cast<int>(m));
  for (auto &s : solo) for (auto i : s) h.add(static_cast<uint64_t>(i));
  distinct(h.get());
}

// readers share one index (race detector)
template <class S, class B>
static void conc_case(uint64_t c, Rng &r, const char *tn, uint32_t build_threads, const std::string &builder = "hnsw") {
  size_t n = 100 + r.below(300), dim = 8 + r.below(30);
  auto d = make_data<float>(r, n, dim, MetricType::L2, static_cast<int>(r.below(3)));
  std::string why = cat(tn, " ", builder, " shared by readers, n=", n, " dim=", dim, " built by ", build_threads, " threads: ");
  progress(why);
  auto x = make_index<S, B, float>(d, builder, 16, 100, build_threads, n);
  well_formed(*x.graph, n, why, builder == "hnsw");
  eval();
  uint32_t k = 5;
  size_t nq = 24;
  std::vector<std::vector<ID>> want(nq, std::vector<ID>(k, 7)), out(nq, std::vector<ID>(k, 7));
  DynamicBitset blocked(n);
  for (size_t i = 0; i < n; ++i) if (r.chance(0.3)) blocked.set(i);
  auto ask = [&](size_t i, std::vector<ID> &o) {
    auto q = d.v[i * 3 % n];
    for (auto &y : q) y += 0.125F;
    if (i % 3 == 2) x.job->search_solo(q.data(), o.data(), SearchInfo{.topk_ = k, .ef_ = 50}, &blocked);
    else x.job->search_solo(q.data(), o.data(), k, 50);
  };
  for (size_t i = 0; i < nq; ++i) ask(i, want[i]);
  std::vector<std::thread> th;
  for (size_t t = 0; t < 6; ++t) th.emplace_back([&, t] { for (size_t i = t; i < nq; i += 6) ask(i, out[i]); });
  for (auto &t : th) t.join();
  VF_CHECK(want == out, "threads:differ", why, "concurrent searches return other ids");
  count("concurrent_answers", nq);
  distinct(Hash().add(std::string(tn)).add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(dim)).add(c).get());
}
static void conc_rabitq(uint64_t c, Rng &r) {
  size_t n = 60 + r.below(200), dim = 64 + r.below(40);
  auto d = make_data<float>(r, n, dim, MetricType::L2, static_cast<int>(r.below(3)));
  std::string why = cat("rabitq shared by readers, n=", n, " dim=", dim, ": ");
  progress(why);
  auto f = d.flat();
  auto sp = std::make_shared<Rbq>(static_cast<ID>(n), dim, MetricType::L2);
  sp->fit(f.data(), static_cast<ID>(n));
  QGBuilder<Rbq>(sp, 1).build_graph();
  auto job = std::make_shared<GraphSearchJob<Rbq>>(sp, nullptr);
  eval();
  uint32_t k = 5;
  size_t nq = 24;
  std::vector<std::vector<ID>> want(nq, std::vector<ID>(k, 7)), out(nq, std::vector<ID>(k, 7));
  for (size_t i = 0; i < nq; ++i) job->rabitq_search_solo(d.v[i].data(), k, want[i].data(), 50);
  std::vector<std::thread> th;
  for (size_t t = 0; t < 6; ++t) th.emplace_back([&, t] { for (size_t i = t; i < nq; i += 6) job->rabitq_search_solo(d.v[i].data(), k, out[i].data(), 50); });
  for (auto &t : th) t.join();
  VF_CHECK(want == out, "threads:differ", why, "concurrent searches return other ids");
  count("concurrent_answers", nq);
  distinct(Hash().add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(dim)).add(c).get());
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  spdlog::set_level(spdlog::level::off);
  auto &mode = vf::ctx().mode;
  if (mode == "static") {
    vf::cases("raw", tiered(36, 400), [](uint64_t c, Rng &r) { graph_case<Raw, Raw, float>(c, r, "raw", true); });
    vf::cases("raw-int8", tiered(8, 100), [](uint64_t c, Rng &r) { graph_case<RawI8, RawI8, int8_t>(c, r, "int8", false); });
    vf::cases("sq8", tiered(16, 200), [](uint64_t c, Rng &r) { graph_case<Sq8, Raw, float>(c, r, "sq8", true); });
    vf::cases("sq4", tiered(12, 200), [](uint64_t c, Rng &r) { graph_case<Sq4, Raw, float>(c, r, "sq4", true); });
    if constexpr (sizeof(ID) == 4) vf::cases("rabitq", tiered(20, 200), rabitq_case);
    recall_judge({});
  }
  if (mode == "conc") {
    vf::cases("conc-raw", tiered(6, 60), [](uint64_t c, Rng &r) { conc_case<Raw, Raw>(c, r, "raw", 1 + c % 4); });
    vf::cases("conc-sq8", tiered(4, 40), [](uint64_t c, Rng &r) { conc_case<Sq8, Raw>(c, r, "sq8", 1 + c % 4); });
    vf::cases("conc-nsg", tiered(4, 40), [](uint64_t c, Rng &r) { conc_case<Raw, Raw>(c, r, "raw", 2 + c % 3, c % 2 ? "nsg" : "fusion"); });
    vf::cases("conc-rabitq", tiered(4, 40), conc_rabitq);
  }
  return vf::finish();
}
