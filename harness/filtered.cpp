// G03: vector search under metadata filters, every strategy against a model of which vectors match.
#include "graph_common.hpp"

using Pred = std::function<bool(const MetadataMap &)>;
struct Filter {
  MetadataFilter f;
  Pred p;
  std::string s;
};
static const char *const kTags[] = {"red", "green", "blue", "grey", "pink"};

static Filter leaf(Rng &r) {
  Filter x;
  auto has = [](const MetadataMap &m, const char *k) { return m.find(k) != m.end(); };
  switch (r.below(9)) {
    case 0: {
      int64_t v = r.range(0, 11);
      x.f.add_eq("cat", v), x.s = cat("cat=", v);
      x.p = [=](const MetadataMap &m) { return has(m, "cat") && std::get<int64_t>(m.at("cat")) == v; };
      break;
    }
    case 1: {
      std::string v = kTags[r.below(5)];
      x.f.add_eq("tag", v), x.s = "tag=" + v;
      x.p = [=](const MetadataMap &m) { return has(m, "tag") && std::get<std::string>(m.at("tag")) == v; };
      break;
    }
    case 2: {
      double v = r.unit();
      x.f.add_lt("score", v), x.s = cat("score<", v);
      x.p = [=](const MetadataMap &m) { return has(m, "score") && std::get<double>(m.at("score")) < v; };
      break;
    }
    case 3: {
      double v = r.unit();
      x.f.add_ge("score", v), x.s = cat("score>=", v);
      x.p = [=](const MetadataMap &m) { return has(m, "score") && std::get<double>(m.at("score")) >= v; };
      break;
    }
    case 4: {
      int64_t v = r.range(-1, 12);
      x.f.add_le("cat", v), x.s = cat("cat<=", v);
      x.p = [=](const MetadataMap &m) { return has(m, "cat") && std::get<int64_t>(m.at("cat")) <= v; };
      break;
    }
    case 5: {
      std::vector<MetadataValue> vs;
      std::set<int64_t> s;
      for (size_t i = 0, n = r.below(4); i < n; ++i) vs.push_back(int64_t{r.range(0, 11)}), s.insert(std::get<int64_t>(vs.back()));
      x.f.add_in("cat", vs), x.s = cat("cat in ", vs.size());
      x.p = [=](const MetadataMap &m) { return has(m, "cat") && s.count(std::get<int64_t>(m.at("cat"))); };
      break;
    }
    case 6: {  // one or a few particular vectors
      std::vector<MetadataValue> vs;
      std::set<int64_t> s;
      for (size_t i = 0, n = 1 + r.below(3); i < n; ++i) vs.push_back(int64_t{r.range(0, 300)}), s.insert(std::get<int64_t>(vs.back()));
      x.f.add_in("no", vs), x.s = cat("no in ", vs.size());
      x.p = [=](const MetadataMap &m) { return has(m, "no") && s.count(std::get<int64_t>(m.at("no"))); };
      break;
    }
    case 7: {
      int64_t v = r.range(0, 400);
      x.f.add_gt("no", v), x.s = cat("no>", v);
      x.p = [=](const MetadataMap &m) { return has(m, "no") && std::get<int64_t>(m.at("no")) > v; };
      break;
    }
    default:
      if (r.chance(0.5)) {
        x.f.add_eq("absent", int64_t{1}), x.s = "absent=1";
        x.p = [](const MetadataMap &) { return false; };
      } else {
        x.f.add_ge("no", int64_t{-1}), x.s = "all";
        x.p = [=](const MetadataMap &m) { return has(m, "no"); };
      }
  }
  return x;
}
static Filter rnd(Rng &r, int depth = 0) {
  if (depth == 0 && r.chance(0.05)) return {MetadataFilter{}, [](const MetadataMap &) { return true; }, "none"};
  if (depth >= 2 || r.chance(0.5)) return leaf(r);
  Filter x;
  auto op = std::array{LogicOp::AND, LogicOp::OR, LogicOp::NOT}[r.below(3)];
  size_t n = op == LogicOp::NOT ? 1 : 2 + r.below(2);
  std::vector<Pred> ps;
  x.f.logic_op = op;
  x.s = op == LogicOp::AND ? "and(" : op == LogicOp::OR ? "or(" : "not(";
  for (size_t i = 0; i < n; ++i) {
    auto y = rnd(r, depth + 1);
    while (y.s == "none") y = leaf(r);
    x.f.add_sub_filter(y.f), ps.push_back(y.p), x.s += y.s + (i + 1 < n ? " " : ")");
  }
  x.p = [=](const MetadataMap &m) {
    if (op == LogicOp::NOT) return !ps[0](m);
    for (auto &p : ps)
      if (p(m) != (op == LogicOp::AND)) return op == LogicOp::OR;
    return op == LogicOp::AND;
  };
  return x;
}
static MetadataMap rnd_meta(Rng &r, size_t i) {
  MetadataMap m{{"no", static_cast<int64_t>(i)}};
  if (r.chance(0.95)) m["cat"] = static_cast<int64_t>(r.below(12));
  if (r.chance(0.9)) m["tag"] = std::string(kTags[std::min(r.below(5), r.below(5))]);
  if (r.chance(0.9)) m["score"] = r.unit();
  return m;
}

struct Rec { double n = 0, sum = 0, low = 1; std::string who; };
static std::map<std::string, Rec> g_rec;

template <class S, class B>
static void filtered(uint64_t c, Rng &r, const char *tn, bool conc) {
  constexpr bool kRbq = is_rabitq_space_v<S>;
  constexpr bool kQuant = !std::is_same_v<S, B>;
  size_t n = conc ? 120 + r.below(100) : c % 4 == 3 ? (kQuant ? 20 : 3) + r.below(30) : 100 + r.below(tiered(300, 1500));
  size_t dim = kRbq ? 64 + r.below(40) : std::array<size_t, 5>{2, 8, 16, 33, 64}[r.below(5)];
  MetricType m = std::array{MetricType::L2, MetricType::L2, MetricType::COS}[r.below(kRbq ? 2 : 3)];
  if (m != MetricType::L2) dim = std::max<size_t>(dim, 8);
  int kind = static_cast<int>(r.below(4));
  if (kRbq && kind == 3) kind = 0;
  auto d = make_data<float>(r, n, dim, m, kind);
  Tmp t("f");
  RocksDBConfig cfg;
  cfg.db_path_ = (t.p / "db").string();
  std::vector<std::string> idx;
  for (auto *f : {"cat", "tag", "score", "no"}) if (r.chance(0.5)) idx.push_back(f);
  cfg.indexed_fields_ = idx;
  std::vector<ScalarData> sd;
  for (size_t i = 0; i < n; ++i) sd.push_back(ScalarData{cat("item", i), cat("doc", i), rnd_meta(r, i)});
  std::string why = cat(tn, " n=", n, " dim=", dim, " ", mname(m), " data ", kind, " indexed ", idx.size(), ": ");
  progress(why);
  auto f = d.flat();
  auto space = std::make_shared<S>(static_cast<ID>(n + 8), dim, m, cfg);
  space->fit(f.data(), static_cast<ID>(n), sd.data());
  std::shared_ptr<B> build;
  std::shared_ptr<Graph<float, ID>> graph;
  if constexpr (kRbq) QGBuilder<S>(space, 1).build_graph();
  else {
    if constexpr (kQuant) {
      build = std::make_shared<B>(static_cast<ID>(n + 8), dim, m);
      build->fit(f.data(), static_cast<ID>(n));
    } else build = space;
    graph = HNSWBuilder<B>(build, 32, 100).build_graph(1);
  }
  auto job = std::make_shared<GraphHybridSearchJob<S, B>>(space, graph, build);
  std::set<ID> dead;
  if constexpr (!kRbq) {
    if (c % 3 == 1) {
      auto sj = std::make_shared<GraphSearchJob<S, B>>(space, graph, nullptr, build);
      GraphUpdateJob<S, B> uj(sj);
      double p = r.chance(0.2) ? 0.9 : 0.2;
      for (size_t i = 0; i < n; ++i) {
        if (!r.chance(p) || dead.size() + 1 >= n) continue;
        if (r.chance(0.5)) uj.remove(static_cast<ID>(i));
        else uj.remove(sd[i].item_id);
        dead.insert(static_cast<ID>(i));
      }
      why += cat(dead.size(), " removed, ");
    }
  }
  eval();
  Hash h;
  h.add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(dim));
  struct Q { std::vector<float> q; Filter f; SearchInfo si; bool brute; std::vector<ID> ids; std::vector<std::string> res; };
  std::vector<Q> qs;
  size_t nq = conc ? 30 : 40;
  for (size_t i = 0; i < nq; ++i) {
    Q x;
    x.q = d.v[r.below(n)];
    if (i % 3) for (auto &y : x.q) y += static_cast<float>(0.3 * r.gauss() * (m == MetricType::L2 ? 1 : 1 / std::sqrt(dim)));
    x.f = rnd(r);
    uint32_t k = 1 + static_cast<uint32_t>(r.chance(0.15) ? r.below(n + 5) : r.below(12));
    x.si = SearchInfo{.topk_ = k, .ef_ = std::max<uint32_t>(k, static_cast<uint32_t>(r.chance(0.3) ? n : 20 + r.below(80)))};
    x.si.filter_exec_hint_ = std::array{FilterExecHint::kAuto, FilterExecHint::kIterativeFilter, FilterExecHint::kDisableIterative}[r.below(3)];
    x.brute = r.chance(0.25);
    qs.push_back(std::move(x));
  }
  auto run = [&](Q &x, std::vector<ID> &ids, std::vector<std::string> &res) {
    ids.assign(x.si.topk_, 7), res.assign(x.si.topk_, "stale");
    auto q = x.q;
    if (x.brute) job->hybrid_search_brute_force_solo(q.data(), ids.data(), x.si.topk_, x.f.f, res.data());
    else if constexpr (kRbq) job->rabitq_hybrid_search_solo(q.data(), x.si, ids.data(), x.f.f, res.data());
    else job->hybrid_search_solo(q.data(), ids.data(), x.si, x.f.f, res.data());
    VF_CHECK(q == x.q, "query:modified", why, "the query was modified");
  };
  for (auto &x : qs) {
    uint32_t k = x.si.topk_, e = x.si.ef_;
    std::string w = cat(why, x.brute ? "brute" : x.si.filter_exec_hint_ == FilterExecHint::kAuto ? "auto" : x.si.filter_exec_hint_ == FilterExecHint::kIterativeFilter ? "iterative" : "prefilter",
                        " filter ", x.f.s, " k=", k, " ef=", e, " ");
    run(x, x.ids, x.res);
    std::function<bool(ID)> ok = [&](ID i) { return !dead.count(i) && x.f.p(sd[i].metadata); };
    Judge<float> judge{d, dead, ok, nullptr, k, w};
    size_t got = judge(x.q.data(), x.ids, nullptr);
    for (size_t i = 0; i < k; ++i)
      VF_CHECK(x.res[i] == (i < got ? sd[x.ids[i]].item_id : ""), "result:item-id", w, "rank ", i, " has item id '", x.res[i], "' but id ", i < got ? x.ids[i] : kNone);
    auto truth = ranking<float>(d, x.q.data(), ok);
    size_t need = std::min<size_t>(k, truth.size());
    bool plain = x.f.s == "none" || (truth.size() == n && x.si.filter_exec_hint_ != FilterExecHint::kIterativeFilter), iter = !x.brute && !plain && x.si.filter_exec_hint_ == FilterExecHint::kIterativeFilter;
    if (truth.empty()) count("empty_answers");
    if (truth.size() < k) count("fewer_matches_than_k");
    if (x.brute) {  // exact
      count("brute_answers");
      VF_CHECK(got == need, "result:count-brute", w, got, " results of ", need);
      for (size_t i = 0; i < got; ++i) {
        double mg, a = d.dist(x.q.data(), x.ids[i], &mg), b = truth[i].first;
        VF_CHECK(std::fabs(a - b) <= 4e-5 * mg + 1e-5 * std::fabs(b) + 1e-6, "result:not-nearest", w, "rank ", i, " is id ", x.ids[i], " at ", a, ", the nearest match is at ", b);
      }
    } else if (iter || plain) {
      count("iterative_answers", iter);
      if constexpr (kRbq) {  // how far its graph connects is not promised: judged by recall
      } else if (e >= n && need) {  // everything connected to a match is visited
        auto in = closure(*graph, n, got ? x.ids[0] : truth[0].second);
        size_t reach = 0;
        for (auto &[dd, id] : truth) reach += in[id];
        // no answer at all: only wrong if the connected part holds most of the index, so that a search must enter it
        size_t part = std::accumulate(in.begin(), in.end(), size_t{0});
        if (got || part * 2 > n) VF_CHECK(got >= std::min<size_t>(k, reach), "result:count-iterative", w, got, " results although ", reach, " matches are connected");
      }
    } else {  // falls back to exact search when underfilled: never fewer than exist
      count("prefilter_answers");
      VF_CHECK(got == need, "result:count-prefilter", w, got, " results of ", need);
    }
    if (!x.brute && n >= 60 && need) {
      double rc = recall_of(x.ids, k, truth);
      auto &g = g_rec[cat(tn, iter ? "-iterative" : plain ? "-plain" : truth.size() * 20 < n ? "-sparse" : "-prefilter")];
      if (!iter || e >= n) {
        g.n += 1, g.sum += rc;
        if (rc < g.low) g.low = rc, g.who = w;
      }
    }
    h.add(static_cast<uint64_t>(truth.size()));
    for (auto i : x.ids) h.add(static_cast<uint64_t>(i));
  }
  // refusals
  auto refused = [&](SearchInfo si, bool brute, const char *what) {
    std::vector<ID> ids(8, 7);
    std::vector<std::string> res(8, "stale");
    bool threw = false;
    auto q = d.v[0];
    try {
      if (brute) job->hybrid_search_brute_force_solo(q.data(), ids.data(), si.topk_, qs[0].f.f, res.data());
      else if constexpr (kRbq) job->rabitq_hybrid_search_solo(q.data(), si, ids.data(), qs[0].f.f, res.data());
      else job->hybrid_search_solo(q.data(), ids.data(), si, qs[0].f.f, res.data());
    } catch (const std::invalid_argument &) { threw = true; }
    VF_CHECK(threw, "refusal", why, what, " accepted");
    VF_CHECK(ids == std::vector<ID>(8, 7), "refusal", why, what, " refused, but results were written");
    count("refusals");
  };
  refused(SearchInfo{.topk_ = 0, .ef_ = 10}, false, "k=0");
  refused(SearchInfo{.topk_ = 0, .ef_ = 10}, true, "k=0 (brute force)");
  refused(SearchInfo{.topk_ = 5, .ef_ = 4}, false, "ef < k");
  // the same from a batch of coroutines or of threads
  std::vector<std::vector<ID>> ids(nq);
  std::vector<std::vector<std::string>> res(nq);
  if (conc) {
    std::vector<std::thread> th;
    for (size_t t2 = 0; t2 < 5; ++t2) th.emplace_back([&, t2] { for (size_t i = t2; i < nq; i += 5) run(qs[i], ids[i], res[i]); });
    for (auto &x : th) x.join();
  } else {
    auto q2 = qs;
    for (size_t i = 0; i < nq; ++i) ids[i].assign(qs[i].si.topk_, 9), res[i].assign(qs[i].si.topk_, "stale");
    batch(nq, 1 + r.below(4), [&](size_t i) {
      auto &x = q2[i];
      if (x.brute) return job->hybrid_search_brute_force(x.q.data(), ids[i].data(), x.si.topk_, x.f.f, res[i].data());
      if constexpr (kRbq) return job->rabitq_hybrid_search(x.q.data(), x.si, ids[i].data(), x.f.f, res[i].data());
      else return job->hybrid_search(x.q.data(), ids[i].data(), x.si, x.f.f, res[i].data());
    });
  }
  for (size_t i = 0; i < nq; ++i) {
    VF_CHECK(ids[i] == qs[i].ids && res[i] == qs[i].res, conc ? "threads:differ" : "batch:differ", why, "query ", i, " filter ", qs[i].f.s, ": another answer than alone");
    count("batch_answers");
  }
  distinct(h.get());
  sample(cat(why, qs[0].f.s, " / ", qs[1].f.s, " / ", qs[2].f.s));
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  spdlog::set_level(spdlog::level::off);
  if (vf::ctx().mode == "conc") {
    vf::cases("conc-raw", tiered(6, 60), [](uint64_t c, Rng &r) { filtered<RawS, RawS>(c, r, "raw", true); });
    vf::cases("conc-sq8", tiered(4, 40), [](uint64_t c, Rng &r) { filtered<Sq8S, Raw>(c, r, "sq8", true); });
    return vf::finish();
  }
  vf::cases("raw", tiered(40, 400), [](uint64_t c, Rng &r) { filtered<RawS, RawS>(c, r, "raw", false); });
  vf::cases("sq8", tiered(24, 240), [](uint64_t c, Rng &r) { filtered<Sq8S, Raw>(c, r, "sq8", false); });
  if constexpr (sizeof(ID) == 4) vf::cases("rabitq", tiered(16, 160), [](uint64_t c, Rng &r) { filtered<RbqS, RbqS>(c, r, "rabitq", false); });
  for (auto &[k, g] : g_rec) {
    if (g.n < 20) continue;
    double mean = g.sum / g.n, floor = k == "rabitq-iterative" ? 0.35 : k.find("iterative") != k.npos ? 0.65 : k.find("plain") != k.npos ? 0.85 : 0.93;
    // the iterative strategy takes matches in the order the traversal meets them, its first ones from afar
    count(("recall_permille_" + k).c_str(), static_cast<uint64_t>(1000 * mean));
    VF_CHECK(mean >= floor, "recall:" + k, "mean recall ", mean, " over ", g.n, " searches, worst ", g.low, " for ", g.who);
  }
  return vf::finish();
}
