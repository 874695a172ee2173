// G02: dynamic updates of an in-memory graph index, against a model of which vectors exist.
#include "graph_common.hpp"

struct Found {  // per kind: how many searches for an existing vector's own position find it
  size_t n = 0, hit = 0;
  std::string who;
};
static std::map<std::string, Found> g_found;
static Found g_growth[2];  // recall per mille

template <class S, class B, bool kScalar>
static void history(uint64_t c, Rng &r, const char *tn) {
  bool quantized = !std::is_same_v<S, B>;  // a quantizer fitted to a handful of vectors saturates everywhere: not judged
  size_t n0 = c % 3 == 0 && !quantized ? 1 + r.below(12) : 20 + r.below(tiered(150, 500));
  size_t dim = std::array<size_t, 6>{2, 4, 8, 16, 31, 48}[r.below(6)];
  MetricType m = std::array{MetricType::L2, MetricType::L2, MetricType::COS}[r.below(3)];
  if (m != MetricType::L2) dim = std::max<size_t>(dim, 8);
  int kind = static_cast<int>(r.below(3));
  uint32_t R = std::array<uint32_t, 3>{8, 16, 32}[r.below(3)];
  size_t cap = n0 + (c % 4 == 1 ? r.below(6) : 30 + r.below(tiered(150, 500)));
  auto d = make_data<float>(r, n0, dim, m, kind);
  std::string why = cat(tn, " history n=", n0, " capacity=", cap, " dim=", dim, " ", mname(m), " R=", R, ": ");
  progress(why);
  Tmp t("u");
  std::map<std::string, ID> items;
  std::vector<std::string> item_of;
  std::vector<ScalarData> sd;
  auto mk = [&](size_t i) {
    std::string name = cat("item", i);
    item_of.push_back(name);
    items[name] = static_cast<ID>(i);
    return ScalarData{name, cat("doc", i), {{"cat", static_cast<int64_t>(i % 5)}}};
  };
  auto f = d.flat();
  std::shared_ptr<B> build;
  std::shared_ptr<S> space;
  RocksDBConfig cfg;
  cfg.db_path_ = (t.p / "db").string();
  if constexpr (kScalar) {
    for (size_t i = 0; i < n0; ++i) sd.push_back(mk(i));
    space = std::make_shared<S>(static_cast<ID>(cap), dim, m, cfg);
    space->fit(f.data(), static_cast<ID>(n0), sd.data());
  } else {
    space = std::make_shared<S>(static_cast<ID>(cap), dim, m);
    space->fit(f.data(), static_cast<ID>(n0));
  }
  if constexpr (std::is_same_v<S, B>) build = space;
  else {
    build = std::make_shared<B>(static_cast<ID>(cap), dim, m);
    build->fit(f.data(), static_cast<ID>(n0));
  }
  std::shared_ptr<Graph<float, ID>> graph = HNSWBuilder<B>(build, R, 100).build_graph(1);
  auto sj = std::make_shared<GraphSearchJob<S, B>>(space, graph, nullptr, build);
  auto uj = std::make_shared<GraphUpdateJob<S, B>>(sj);
  std::set<ID> dead;
  std::vector<ID> live(n0);
  std::iota(live.begin(), live.end(), 0);
  eval();
  Hash h;
  std::string hist;
  auto search = [&](const std::vector<float> &q0, uint32_t k, uint32_t ef, const std::string &w) {
    std::vector<ID> ids(k, 7);
    std::vector<float> ds(k, 7);
    auto q = q0;
    Judge<float> judge{d, dead, nullptr, nullptr, k, w};
    sj->search_solo(q.data(), ids.data(), ds.data(), k, ef);
    size_t got = judge(q.data(), ids, &ds);
    std::vector<ID> ids2(k, 7);
    sj->search_solo(q.data(), ids2.data(), k, ef);
    VF_CHECK(ids == ids2, "result:with-distances", w, "the answer differs when distances are asked for");
    DynamicBitset none(d.v.size());
    std::vector<ID> ids3(k, 7);
    sj->search_solo(q.data(), ids3.data(), SearchInfo{.topk_ = k, .ef_ = ef}, &none);
    judge.why = cat(w, "(blocked none) ");
    judge(q.data(), ids3, nullptr);
    ids.resize(got);
    return ids;
  };
  auto own = [&](ID id, const char *when) {  // is the vector at its own position found?
    uint32_t ef = static_cast<uint32_t>(d.v.size() + 4), k = 4;
    auto ids = search(d.v[id], k, ef, cat(why, when, " id ", id, " [", hist.substr(hist.size() > 60 ? hist.size() - 60 : 0), "] "));
    double mg, best = ids.empty() ? 1e300 : d.dist(d.v[id].data(), ids[0], &mg);
    double self = d.dist(d.v[id].data(), id, &mg);
    bool hit = !ids.empty() && best <= self + 4e-5 * mg + 1e-6;
    auto &x = g_found[cat(tn, "-", when)];
    ++x.n, x.hit += hit;
    if (!hit && x.who.empty()) x.who = cat(why, "id ", id, " of ", d.v.size(), " live ", live.size(), " [", hist.substr(hist.size() > 100 ? hist.size() - 100 : 0), "]");
  };
  auto refused = [&](const char *what, auto fn) {
    auto n = space->get_data_num();
    bool threw = false;
    ID got = kNone;
    try { got = fn(); } catch (const std::exception &) { threw = true; }
    VF_CHECK(threw || got == kNone, "update:refusal", why, what, " accepted as id ", got);
    VF_CHECK(space->get_data_num() == n, "update:refusal", why, what, " changed the number of vectors from ", n, " to ", space->get_data_num());
    count("refusals");
  };
  auto remove = [&](size_t pos) {
    ID id = live[pos];
    if constexpr (kScalar) {
      if (r.chance(0.5)) uj->remove(item_of[id]);
      else uj->remove(id);
      items.erase(item_of[id]);
    } else {
      uj->remove(id);
    }
    live.erase(live.begin() + static_cast<long>(pos));
    dead.insert(id);
    count("removes");
    h.add(1).add(static_cast<uint64_t>(id));
    hist += cat(" -", id);
  };
  size_t ops = 20 + r.below(tiered(120, 500));
  double p_ins = std::array{0.5, 0.8, 0.3}[r.below(3)];
  for (size_t o = 0; o < ops; ++o) {
    double x = r.unit();
    if (x < p_ins) {
      std::vector<float> v = draw<float>(r, dim, m, kind, {});
      if (!live.empty() && r.chance(0.5)) {
        v = d.v[live[r.below(live.size())]];
        for (auto &y : v) y += static_cast<float>(0.05 * r.gauss());
      } else if (r.chance(0.15) && m == MetricType::L2) {
        for (auto &y : v) y = y * 12 + 40;  // far from everything
      }
      uint32_t ef = std::max<uint32_t>(graph->max_nbrs_, 60);
      auto q = v;
      if (d.v.size() >= cap) {
        refused("an insert beyond the capacity", [&]() -> ID {
          ScalarData s{"beyond", "doc", {}};
          if constexpr (kScalar) return uj->insert_and_update(q.data(), ef, &s);
          else return uj->insert_and_update(q.data(), ef);
        });
        if constexpr (kScalar) {
          bool known = true;
          try { space->get_scalar_data(std::string("beyond")); } catch (const std::exception &) { known = false; }
          VF_CHECK(!known, "update:refusal", why, "a refused insert left its item behind");
        }
        if (!live.empty() && r.chance(0.5)) remove(r.below(live.size()));
        continue;
      }
      ID id;
      size_t before = d.v.size();
      if constexpr (kScalar) {
        if (!items.empty() && r.chance(0.1)) {
          auto it = items.begin();
          std::advance(it, static_cast<long>(r.below(items.size())));
          ScalarData s{it->first, "again", {}};
          refused("an insert under an existing item id", [&] { return uj->insert_and_update(q.data(), ef, &s); });
          continue;
        }
        auto s = mk(before);
        if (!dead.empty() && r.chance(0.3)) {  // a removed item may come back under its old name
          auto it = dead.begin();
          std::advance(it, static_cast<long>(r.below(dead.size())));
          if (!items.count(item_of[*it])) {
            items.erase(s.item_id);
            s.item_id = item_of[*it];
            item_of[before] = s.item_id;
            items[s.item_id] = static_cast<ID>(before);
          }
        }
        id = uj->insert_and_update(q.data(), ef, &s);
      } else {
        id = uj->insert_and_update(q.data(), ef);
      }
      VF_CHECK(id == before, "update:id", why, "insert returned id ", id, ", expected the next one, ", before);
      if (id != before) return;
      VF_CHECK(q == v, "update:query", why, "the inserted vector was modified in the caller's memory");
      d.v.push_back(v);
      live.push_back(id);
      count("inserts");
      h.add(2).add(v.data(), v.size() * 4);
      hist += cat(" +", id);
      own(id, "after-insert");
    } else if (x < p_ins + 0.02) {
      hist += " all";
      while (!live.empty()) remove(r.below(live.size()));
    } else if (!live.empty()) {
      size_t k = r.chance(0.1) ? 1 + r.below(live.size()) : 1;
      while (k-- && !live.empty()) remove(r.below(live.size()));
    }
    if (o % 8 == 0) {
      well_formed(*graph, d.v.size(), cat(why, "after ", o, " operations "), true);
      std::vector<float> q = d.v[r.below(d.v.size())];
      for (auto &y : q) y += static_cast<float>(0.1 * r.gauss());
      uint32_t k = 1 + static_cast<uint32_t>(r.below(20));
      auto got = search(q, k, std::max<uint32_t>(k, 20 + static_cast<uint32_t>(r.below(100))), cat(why, "after ", o, " operations "));
      (void)got;
    }
  }
  // the end state: everything alive, nothing else
  uint32_t all = static_cast<uint32_t>(d.v.size());
  auto got = search(d.v[0], all, all, cat(why, "at the end "));
  auto &x = g_found[cat(tn, "-all")];
  x.n += live.size(), x.hit += got.size();
  if (got.size() < live.size() && x.who.empty()) x.who = cat(why, got.size(), " of ", live.size(), " live vectors can be reached [", hist.substr(0, 200), "]");
  for (size_t i = 0; i < std::min<size_t>(live.size(), 25); ++i) own(live[r.below(live.size())], "at-end");
  for (auto id : live) {
    VF_CHECK(std::equal(d.v[id].begin(), d.v[id].end(), build->get_data_by_id(id)), "update:vector", why, "vector ", id, " changed");
    if constexpr (kScalar) {
      auto [iid, s] = space->get_scalar_data(item_of[id]);
      VF_CHECK(iid == id && s.item_id == item_of[id], "update:item", why, "item ", item_of[id], " is vector ", iid, ", expected ", id);
    }
  }
  if constexpr (kScalar) {
    for (auto id : dead)
      if (!items.count(item_of[id])) {
        bool known = true;
        try { space->get_scalar_data(item_of[id]); } catch (const std::exception &) { known = false; }
        VF_CHECK(!known, "update:item", why, "removed item ", item_of[id], " is still found");
      }
    space->close_db();
  }
  if (!dead.empty()) distinct(h.get());
  if (c < 4) sample(cat(why, hist.substr(0, 200)));
}

// growing an index by inserts must not cost recall at ordinary effort
template <class S, class B>
static void growth(uint64_t c, Rng &r, const char *tn) {
  size_t n0 = 50 + r.below(200), n = n0 + tiered(500, 2500), dim = std::array<size_t, 3>{8, 24, 64}[c % 3];
  auto d = make_data<float>(r, n, dim, MetricType::L2, static_cast<int>(c % 2));
  auto f = d.flat();
  std::string why = cat(tn, " grown from ", n0, " to ", n, " dim=", dim, ": ");
  progress(why);
  auto build = std::make_shared<B>(static_cast<ID>(n), dim, MetricType::L2);
  build->fit(f.data(), static_cast<ID>(n0));
  std::shared_ptr<S> space;
  if constexpr (std::is_same_v<S, B>) space = build;
  else {
    space = std::make_shared<S>(static_cast<ID>(n), dim, MetricType::L2);
    space->fit(f.data(), static_cast<ID>(n0));
  }
  std::shared_ptr<Graph<float, ID>> graph = HNSWBuilder<B>(build, 32, 100).build_graph(1);
  auto sj = std::make_shared<GraphSearchJob<S, B>>(space, graph, nullptr, build);
  auto uj = std::make_shared<GraphUpdateJob<S, B>>(sj);
  for (size_t i = n0; i < n; ++i) {
    auto q = d.v[i];
    uj->insert_and_update(q.data(), 64);
  }
  std::set<ID> dead;
  eval();
  for (int phase = 0; phase < 2; ++phase) {
    double sum = 0;
    for (int i = 0; i < 40; ++i) {
      auto q = d.v[r.below(n)];
      for (auto &y : q) y += static_cast<float>(0.2 * r.gauss());
      std::vector<ID> ids(10, 7);
      sj->search_solo(q.data(), ids.data(), 10, 100);
      Judge<float>{d, dead, nullptr, nullptr, 10, why}(q.data(), ids, nullptr);
      sum += recall_of(ids, 10, ranking<float>(d, q.data(), [&](ID x) { return !dead.count(x); }));
    }
    auto &g = g_growth[phase];
    g.n += 1, g.hit += static_cast<size_t>(sum * 1000 / 40);
    VF_CHECK(sum / 40 >= 0.75, phase ? "recall:after-removes" : "recall:grown", why, "mean recall of 40 queries is ", sum / 40, phase ? " after removing a tenth" : "");
sample(cat(why, "recall ", sum / 40, phase ? " after removes" : ""));
    for (size_t i = 0; i < n / 10; ++i) {
      ID x = static_cast<ID>(r.below(n));
      if (dead.insert(x).second) uj->remove(x);
    }
  }
  distinct(Hash().add(std::string(tn)).add(f.data(), 64).add(c).get());
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  spdlog::set_level(spdlog::level::off);
  vf::cases("raw", tiered(40, 400), [](uint64_t c, Rng &r) { history<Raw, Raw, false>(c, r, "raw"); });
  vf::cases("raw-items", tiered(16, 200), [](uint64_t c, Rng &r) { history<RawS, RawS, true>(c, r, "raw-items"); });
  vf::cases("sq8-items", tiered(16, 200), [](uint64_t c, Rng &r) { history<Sq8S, Raw, true>(c, r, "sq8-items"); });
  vf::cases("sq4", tiered(16, 200), [](uint64_t c, Rng &r) { history<Sq4, Raw, false>(c, r, "sq4"); });
  vf::cases("growth", tiered(6, 40), [](uint64_t c, Rng &r) { growth<Raw, Raw>(c, r, "raw"); });
  vf::cases("growth-sq8", tiered(4, 40), [](uint64_t c, Rng &r) { growth<Sq8, Raw>(c, r, "sq8"); });
  for (auto &[k, x] : g_found) {
    double rate = x.n ? static_cast<double>(x.hit) / static_cast<double>(x.n) : 1;
    sample(cat(k, ": ", x.hit, " of ", x.n));
    if (x.n >= 50) VF_CHECK(rate >= 0.98, cat("reach:", k), "only ", x.hit, " of ", x.n, " existing vectors are found by an exhaustive search, first missing: ", x.who);
    count("own_position_searches", x.n);
  }
  for (int i = 0; i < 2; ++i)
    if (g_growth[i].n >= 4) VF_CHECK(g_growth[i].hit >= 930 * g_growth[i].n, i ? "recall:after-removes" : "recall:grown", "mean recall ", g_growth[i].hit / 1000.0 / g_growth[i].n, " over ", g_growth[i].n, " grown indexes");
  return vf::finish();
}
