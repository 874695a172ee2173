// V02: vector spaces against a model of live vectors.  V03: quantized spaces against recomputed codes.
#include <memory>
#include <optional>
#include <type_traits>
#include "vf.hpp"
#include "space/raw_space.hpp"
#include "space/rabitq_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
#include "space/quant/sq4.hpp"
#include "space/quant/sq8.hpp"
#include "utils/scalar_data.hpp"

using namespace vf;
using alaya::MetricType;

template <class T>
static std::vector<T> gen(Rng &r, size_t dim, int kind) {
  std::vector<T> v(dim);
  for (auto &x : v) {
    if constexpr (std::is_floating_point_v<T>) {
      switch (kind) {
        case 0: x = static_cast<T>(r.gauss()); break;
        case 1: x = static_cast<T>(r.gauss() * 1000); break;
        case 2: x = static_cast<T>(r.range(-3, 3)); break;
        default: x = static_cast<T>(5.0 + 1e-3 * r.gauss()); break;
      }
    } else {
      x = static_cast<T>(r.next());
    }
  }
  return v;
}
template <class T>
static double exact(MetricType m, const T *a, const T *b, size_t dim, double &mag) {
  double s = 0;
  mag = 0;
  for (size_t i = 0; i < dim; ++i) {
    double x = static_cast<double>(a[i]), y = static_cast<double>(b[i]);
    double t = m == MetricType::L2 ? (x - y) * (x - y) : -x * y;
    s += t, mag += std::fabs(t);
  }
  return s;
}
static const char *mname(MetricType m) { return m == MetricType::L2 ? "L2" : m == MetricType::IP ? "IP" : "COS"; }

// ---------------------------------------------------------------- V02
template <class Space, class T, class ID>
static void raw_history(uint64_t c, Rng &r, const char *tn) {
  size_t dim = c % 4 == 0 ? 1 + r.below(40) : 1 + r.below(140);
  size_t cap = 1 + r.below(c % 5 == 0 ? 9 : 120);
  MetricType metric = std::is_floating_point_v<T> ? std::array{MetricType::L2, MetricType::IP, MetricType::COS}[r.below(3)]
                                                  : std::array{MetricType::L2, MetricType::IP}[r.below(2)];
  int kind = static_cast<int>(r.below(4));
  Tmp t("raw");
  auto sp = std::make_unique<Space>(static_cast<ID>(cap), dim, metric);
  std::vector<std::vector<T>> vecs;  // by id
  std::set<size_t> dead;
  Hash h;
  h.add(static_cast<uint64_t>(dim)).add(static_cast<uint64_t>(cap)).add(static_cast<int>(metric));
  std::string script = cat(tn, " dim=", dim, " cap=", cap, " ", mname(metric), ": ");
  bool nontrivial = false;

  auto dist_ok = [&](const char *what, double got, const T *a, const T *b) {
    double mag, e = exact(metric, a, b, dim, mag);
    double in = 0;  // distances are floats: doubles are rounded before they are subtracted
    if constexpr (std::is_same_v<T, double>)
      for (size_t i = 0; i < dim; ++i) {
        double x = a[i], y = b[i], u = 1.2e-7 * (std::fabs(x) + std::fabs(y));
        in += metric == MetricType::L2 ? 2 * std::fabs(x - y) * u + u * u : 2.4e-7 * std::fabs(x * y);
      }
    VF_CHECK(std::fabs(got - e) <= 1e-5 * mag + 2 * in + 1e-30, cat("distance:", what), script, what, " gives ", got, " expected ", e);
  };
  auto verify = [&](bool full) {
    eval();
    VF_CHECK(sp->get_data_num() == vecs.size(), "count", script, "data_num ", sp->get_data_num(), " expected ", vecs.size());
    VF_CHECK(sp->get_avl_data_num() == vecs.size() - dead.size(), "count", script, "available ", sp->get_avl_data_num(), " expected ",
             vecs.size() - dead.size());
    VF_CHECK(sp->get_capacity() == cap && sp->get_dim() == dim && sp->get_data_size() == dim * sizeof(T), "shape", script, "capacity/dim/size changed");
    std::vector<size_t> live;
    for (size_t i = 0; i < vecs.size(); ++i)
      if (!dead.count(i)) live.push_back(i);
    auto some = [&](size_t n) {
      std::vector<size_t> o;
      if (full || live.size() <= n) return live;
      for (size_t i = 0; i < n; ++i) o.push_back(r.pick(live));
      return o;
    };
    for (size_t i : some(12))
      VF_CHECK(memcmp(sp->get_data_by_id(static_cast<ID>(i)), vecs[i].data(), dim * sizeof(T)) == 0, "vector", script, "vector ", i, " changed");
    count("vectors_compared", live.size());
    if (live.empty()) return;
    for (int k = 0; k < 6; ++k) {
      size_t a = r.pick(live), b = r.pick(live);
      dist_ok("get_distance", sp->get_distance(static_cast<ID>(a), static_cast<ID>(b)), vecs[a].data(), vecs[b].data());
    }
    auto q = gen<T>(r, dim, kind);
    {
      auto qc = sp->get_query_computer(q.data());
      auto keep = q;
      std::fill(q.begin(), q.end(), T{});  // the computer owns its query
      for (size_t i : some(6)) dist_ok("query", qc(static_cast<ID>(i)), keep.data(), vecs[i].data());
      if (!dead.empty()) {
        std::vector<size_t> dd(dead.begin(), dead.end());
        size_t d = r.pick(dd);
        VF_CHECK(qc(static_cast<ID>(d)) >= std::numeric_limits<float>::max(), "removed", script, "removed vector ", d, " still has a distance");
      }
    }
    size_t a = r.pick(live), b = r.pick(live);
    auto qc = sp->get_query_computer(static_cast<ID>(a));
    dist_ok("query-by-id", qc(static_cast<ID>(b)), vecs[a].data(), vecs[b].data());
  };
  {
    size_t n = r.below(std::min<size_t>(cap, 40) + 1);
    if (r.chance(0.1)) {  // refused: too many
      std::vector<T> big((cap + 1) * dim);
      bool threw = false;
      try { sp->fit(big.data(), static_cast<ID>(cap + 1)); } catch (const std::length_error &) { threw = true; }
      VF_CHECK(threw, "refusal", script, "fit beyond the capacity was accepted");
      count("refusals");
      script += "fit-too-many ";
    }
    if (n) {
      std::vector<T> all;
      for (size_t i = 0; i < n; ++i) {
        vecs.push_back(gen<T>(r, dim, kind));
        all.insert(all.end(), vecs.back().begin(), vecs.back().end());
      }
      sp->fit(all.data(), static_cast<ID>(n));
      script += cat("fit(", n, ") ");
      h.add(static_cast<uint64_t>(n));
    }
  }
  verify(true);
  size_t ops = 5 + r.below(60);
  for (size_t o = 0; o < ops; ++o) {
    double p = r.unit();
    if (p < 0.5) {
      auto v = gen<T>(r, dim, kind);
      auto keep = v;
      ID id = sp->insert(v.data());
      std::fill(v.begin(), v.end(), T{});
      if (vecs.size() >= cap) {
        VF_CHECK(id == static_cast<ID>(-1), "refusal", script, "insert into a full space returned ", id);
        count("refusals"), nontrivial = true;
        script += "insert-full ";
      } else {
        VF_CHECK(id == vecs.size(), "id", script, "insert returned id ", id, " expected a new id ", vecs.size());
        vecs.push_back(keep);
        script += "i ";
      }
      h.add(1);
    } else if (p < 0.75) {
      size_t id = r.chance(0.8) && !vecs.empty() ? r.below(vecs.size()) : vecs.size() + r.below(cap + 70);
      if (r.chance(0.02)) id = static_cast<ID>(-1);
      bool ok = id < vecs.size() && !dead.count(id);
      ID got = sp->remove(static_cast<ID>(id));
      script += cat("r", id, " ");
      if (ok) {
        VF_CHECK(got == id, "remove", script, "remove returned ", got);
        dead.insert(id), nontrivial = true;
      } else {
        VF_CHECK(got == static_cast<ID>(-1), "remove", script, "remove of an absent id returned ", got);
        count("refusals");
      }
      h.add(2).add(static_cast<uint64_t>(id));
    } else if (p < 0.87) {
      verify(false);
    } else if (p < 0.92 || o + 1 == ops) {
      sp->save(t.s("f"));
      auto nx = std::make_unique<Space>();
      nx->load(t.s("f"));
      sp = std::move(nx);
      count("reloads"), nontrivial = true;
      script += "reload ";
      verify(true);
      h.add(3);
    }
  }
  verify(true);
  if (nontrivial) distinct(h.get());
  if (c < 3) sample(script);
}

// A raw space that carries scalar data: both sides stay in step.
static void raw_scalar(uint64_t c, Rng &r) {
  using S = alaya::RawSpace<float, float, uint32_t, alaya::SequentialStorage<float, uint32_t>, alaya::ScalarData>;
  Tmp t("rs");
  size_t dim = 1 + r.below(20), cap = 3 + r.below(30);
  alaya::RocksDBConfig cfg = alaya::RocksDBConfig::default_config();
  cfg.db_path_ = t.s("db");
  auto sp = std::make_unique<S>(static_cast<uint32_t>(cap), dim, MetricType::L2, cfg);
  std::vector<std::vector<float>> vecs;
  std::vector<std::string> item, doc;
  std::set<size_t> dead;
  std::map<std::string, size_t> live;
  Hash h;
  std::string script = cat("scalar dim=", dim, " cap=", cap, ": ");
  auto mk = [&](const std::string &id, const std::string &d) {
    alaya::ScalarData s;
    s.item_id = id, s.document = d;
    s.metadata["n"] = static_cast<int64_t>(d.size());
    return s;
  };
  size_t n = 1 + r.below(cap / 2 + 1);
  {
    std::vector<float> all;
    std::vector<alaya::ScalarData> sd;
    for (size_t i = 0; i < n; ++i) {
      vecs.push_back(gen<float>(r, dim, 0));
      all.insert(all.end(), vecs.back().begin(), vecs.back().end());
      item.push_back(cat("item", i)), doc.push_back(cat("doc", i));
      live[item.back()] = i;
      sd.push_back(mk(item.back(), doc.back()));
    }
    sp->fit(all.data(), static_cast<uint32_t>(n), sd.data());
  }
  auto verify = [&] {
    eval();
    VF_CHECK(sp->get_data_num() == vecs.size(), "scalar-count", script, "data_num ", sp->get_data_num(), " expected ", vecs.size());
    VF_CHECK(sp->get_avl_data_num() == live.size(), "scalar-count", script, "available ", sp->get_avl_data_num(), " expected ", live.size());
    for (auto &[it, i] : live) {
      VF_CHECK(memcmp(sp->get_data_by_id(static_cast<uint32_t>(i)), vecs[i].data(), dim * 4) == 0, "scalar-vector", script, "vector ", i, " changed");
      auto [id, s] = sp->get_scalar_data(it);
      VF_CHECK(id == i && s.item_id == it && s.document == doc[i], "scalar-pairing", script, it, " maps to ", id, "/", s.document, " expected ", i);
      VF_CHECK(sp->get_scalar_data(static_cast<uint32_t>(i)).item_id == it, "scalar-pairing", script, "id ", i, " maps to another record");
    }
    for (size_t d : dead) {
      if (live.count(item[d])) continue;
      bool threw = false;
      try { (void)sp->get_scalar_data(item[d]); } catch (const std::runtime_error &) { threw = true; }
      VF_CHECK(threw, "scalar-removed", script, "removed item ", item[d], " still found");
    }
    auto all = sp->get_scalar_data(alaya::MetadataFilter{}, 1000);
    VF_CHECK(all.size() == live.size(), "scalar-scan", script, "scan finds ", all.size(), " records, expected ", live.size());
  };
  verify();
  size_t ops = 4 + r.below(25), fresh = 0;
  for (size_t o = 0; o < ops; ++o) {
    double p = r.unit();
    if (p < 0.45) {
      bool dup = !live.empty() && r.chance(0.3);
      std::string it = dup ? std::next(live.begin(), static_cast<long>(r.below(live.size())))->first : cat("new", fresh++);
      if (!dup && !dead.empty() && r.chance(0.3)) {
        auto &old = item[*std::next(dead.begin(), static_cast<long>(r.below(dead.size())))];
        if (!old.empty() && !live.count(old)) it = old;  // an item id may be used again once it is free
      }
      auto v = gen<float>(r, dim, 0);
      auto s = mk(it, cat("d", r.below(1000)));
      bool full = vecs.size() >= cap, threw = false;
      uint32_t id = 0;
      try { id = sp->insert(v.data(), &s); } catch (const std::runtime_error &) { threw = true; }
      script += cat("i(", it, ") ");
      if (full) {
        VF_CHECK(!threw && id == static_cast<uint32_t>(-1), "scalar-refusal", script, "full space answered ", id);
        count("refusals");
      } else if (dup) {
        VF_CHECK(threw, "scalar-refusal", script, "a second ", it, " was accepted");
        count("refusals");
        // the slot may have been used up, but nothing visible may have changed
        vecs.push_back(v), item.emplace_back(), doc.emplace_back();
        dead.insert(vecs.size() - 1);
        if (sp->get_data_num() != vecs.size()) vecs.pop_back(), item.pop_back(), doc.pop_back(), dead.erase(vecs.size());
      } else {
        VF_CHECK(!threw && id == vecs.size(), "scalar-id", script, "insert gave ", id, " expected ", vecs.size());
        vecs.push_back(v), item.push_back(it), doc.push_back(s.document);
        live[it] = vecs.size() - 1;
      }
      h.add(it);
    } else if (p < 0.7) {
      bool known = !live.empty() && r.chance(0.8);
      std::string it = known ? std::next(live.begin(), static_cast<long>(r.below(live.size())))->first : "absent";
      script += cat("r(", it, ") ");
      bool threw = false;
      try {
        if (r.chance(0.5) || !known) sp->remove(it);
        else sp->remove(static_cast<uint32_t>(live[it]));
      } catch (const std::runtime_error &) { threw = true; }
      VF_CHECK(threw == !known, "scalar-remove", script, known ? "refused" : "accepted");
      if (known) dead.insert(live[it]), live.erase(it);
      h.add(it);
    } else if (p < 0.85) {
      verify();
    } else {
      sp->save(t.s("f"));
      sp->close_db();
      sp.reset();
      sp = std::make_unique<S>();
      sp->load(t.s("f"));
      script += "reload ";
      count("reloads");
      verify();
      h.add(9);
    }
  }
  verify();
  distinct(h.get());
  if (c < 2) sample(script);
}

// ---------------------------------------------------------------- V03
// What a component may decode to: the level at or below it; both neighbours when it lies within rounding of a level.
struct Level { double lo, hi; };
static Level level(double v, double mn, double mx, int top) {
  if (mx == mn) return {mn, mn};
  double st = (mx - mn) / top;
  if (v >= mx) return {mx, mx};
  if (v <= mn) return {mn, mn};
  double s = (v - mn) / (mx - mn) * top;
  double e = 1e-5 * (1 + top * (std::fabs(v) + std::fabs(mn)) * 1.2e-7 / 1e-5 / (mx - mn));
  double a = std::floor(s - e), b = std::floor(s + e);
  a = std::max(a, 0.0), b = std::min<double>(b, top);
  return {mn + a * st, mn + b * st};
}
static void interval_dist(MetricType m, const std::vector<Level> &a, const std::vector<Level> &b, double &lo, double &hi, double &mag) {
  lo = hi = mag = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    double c[4];
    int k = 0;
    for (double x : {a[i].lo, a[i].hi})
      for (double y : {b[i].lo, b[i].hi}) c[k++] = m == MetricType::L2 ? (x - y) * (x - y) : -x * y;
    lo += *std::min_element(c, c + 4), hi += *std::max_element(c, c + 4);
    double w = std::max(std::fabs(a[i].hi), std::fabs(a[i].lo)) + std::max(std::fabs(b[i].hi), std::fabs(b[i].lo));
    mag += m == MetricType::L2 ? std::max(std::fabs(c[0]), std::fabs(c[3])) + 1e-2 * w * std::sqrt(std::fabs(c[3])) : w * w;
  }
}
template <class Space, class T, int kTop>
static void quant_history(uint64_t c, Rng &r, const char *tn) {
  size_t dim = c % 3 ? 1 + r.below(40) : 1 + r.below(200);
  size_t cap = 2 + r.below(60), n = 1 + r.below(cap);
  MetricType metric = std::array{MetricType::L2, MetricType::IP, MetricType::COS}[r.below(3)];
  int kind = static_cast<int>(r.below(4));
  Tmp t("sq");
  auto sp = std::make_unique<Space>(static_cast<uint32_t>(cap), dim, metric);
  std::vector<std::vector<T>> vecs;
  std::vector<T> all;
  std::vector<double> mn(dim, 1e300), mx(dim, -1e300);
  for (size_t i = 0; i < n; ++i) {
    auto v = gen<T>(r, dim, kind);
    if (r.chance(0.3)) v[r.below(dim)] = vecs.empty() ? v[0] : vecs[0][0];
    if (dim > 1 && c % 7 == 0) v[1] = T{2};  // a component that never varies
    vecs.push_back(v);
    all.insert(all.end(), v.begin(), v.end());
    for (size_t d = 0; d < dim; ++d) mn[d] = std::min(mn[d], double(v[d])), mx[d] = std::max(mx[d], double(v[d]));
  }
  sp->fit(all.data(), static_cast<uint32_t>(n));
  std::set<size_t> dead;
  std::string script = cat(tn, " dim=", dim, " n=", n, " ", mname(metric), ": ");
  auto dec = [&](const std::vector<T> &v) {
    std::vector<Level> o;
    for (size_t d = 0; d < dim; ++d) o.push_back(level(v[d], mn[d], mx[d], kTop));
    return o;
  };
  auto judge = [&](const char *what, double got, const std::vector<T> &a, const std::vector<T> &b) {
    double lo, hi, mag;
    interval_dist(metric, dec(a), dec(b), lo, hi, mag);
    double tol = 2e-5 * mag + 1e-30;
    eval();
    VF_CHECK(got >= lo - tol && got <= hi + tol, cat("codes:", what), script, what, " gives ", got, " expected ", lo, "..", hi, " from the levels");
    // and the levels are within one step of the vectors themselves
    double em, e = exact(metric, a.data(), b.data(), dim, em), slack = 0;
    bool inside = true;
    for (size_t d = 0; d < dim; ++d) {
      double st = (mx[d] - mn[d]) / kTop * 1.001;
      inside &= double(a[d]) >= mn[d] && double(a[d]) <= mx[d] && double(b[d]) >= mn[d] && double(b[d]) <= mx[d];
      slack += metric == MetricType::L2 ? st * (2 * std::fabs(double(a[d]) - b[d]) + st) : st * (std::fabs(a[d]) + std::fabs(b[d]) + st);
    }
    if (inside) VF_CHECK(std::fabs(got - e) <= slack + 1e-4 * (em + mag) + 1e-30, cat("step:", what), script, what, " gives ", got, " true ", e, " allowed error ", slack);
  };
  auto verify = [&] {
    VF_CHECK(sp->get_data_num() == vecs.size(), "count", script, "data_num ", sp->get_data_num(), " expected ", vecs.size());
    VF_CHECK(sp->get_dim() == dim && sp->get_capacity() == cap, "shape", script, "dimension or capacity changed");
    auto q = sp->get_quantizer();
    for (size_t d = 0; d < dim; ++d)
      VF_CHECK(double(q.get_min()[d]) == mn[d] && double(q.get_max()[d]) == mx[d], "range", script, "range of component ", d, " is [", double(q.get_min()[d]), ",",
               double(q.get_max()[d]), "] expected [", mn[d], ",", mx[d], "]");
    std::vector<size_t> live;
    for (size_t i = 0; i < vecs.size(); ++i)
      if (!dead.count(i)) live.push_back(i);
    if (live.empty()) return;
    for (int k = 0; k < 5; ++k) {
      size_t a = r.pick(live), b = r.pick(live);
      judge("get_distance", sp->get_distance(static_cast<uint32_t>(a), static_cast<uint32_t>(b)), vecs[a], vecs[b]);
    }
    for (int k = 0; k < 3; ++k) {
      auto v = gen<T>(r, dim, kind);
      if (r.chance(0.5)) for (auto &x : v) if (r.chance(0.1)) x = static_cast<T>(x * 3);  // beyond the learned range
      auto qc = sp->get_query_computer(v.data());
      for (int j = 0; j < 3; ++j) {
        size_t b = r.pick(live);
        judge("query", qc(static_cast<uint32_t>(b)), v, vecs[b]);
      }
      size_t a = r.pick(live), b = r.pick(live);
      auto qi = sp->get_query_computer(static_cast<uint32_t>(a));
      judge("query-by-id", qi(static_cast<uint32_t>(b)), vecs[a], vecs[b]);
    }
  };
  verify();
  Hash h;
  h.add(all.data(), all.size() * sizeof(T));
  size_t ops = 3 + r.below(30);
  for (size_t o = 0; o < ops; ++o) {
    double p = r.unit();
    if (p < 0.5) {
      auto v = gen<T>(r, dim, kind);
      if (r.chance(0.4)) v[r.below(dim)] = static_cast<T>(v[0] * 4);
      auto keep = v;
      uint32_t id = sp->insert(v.data());
      if (vecs.size() >= cap) {
        VF_CHECK(id == static_cast<uint32_t>(-1), "refusal", script, "full space answered ", id);
        count("refusals");
      } else {
        VF_CHECK(id == vecs.size(), "id", script, "insert gave ", id, " expected ", vecs.size());
        vecs.push_back(keep);
      }
      script += "i ";
    } else if (p < 0.7) {
      size_t id = r.below(vecs.size() + 3);
      bool ok = id < vecs.size() && !dead.count(id);
      uint32_t got = sp->remove(static_cast<uint32_t>(id));
      VF_CHECK(got == (ok ? static_cast<uint32_t>(id) : static_cast<uint32_t>(-1)), "remove", script, "remove of ", id, " answered ", got);
      if (ok) dead.insert(id);
      script += cat("r", id, " ");
    } else if (p < 0.85) {
      verify();
    } else {
      sp->save(t.s("f"));
      auto nx = std::make_unique<Space>();
      nx->load(t.s("f"));
      sp = std::move(nx);
      count("reloads");
      script += "reload ";
      verify();
    }
    h.add(script);
  }
  verify();
  distinct(h.get());
  if (c < 3) sample(script);
}
template <class Q, int kTop>
static void quantizer(uint64_t c, Rng &r, const char *tn) {
  uint32_t dim = 1 + static_cast<uint32_t>(r.below(33));
  Q q(dim);
  size_t n = 1 + r.below(20);
  std::vector<float> all;
  for (size_t i = 0; i < n; ++i) {
    auto v = gen<float>(r, dim, static_cast<int>(c % 4));
    all.insert(all.end(), v.begin(), v.end());
  }
  q.fit(all.data(), n);
  for (int k = 0; k < 50; ++k) {
    size_t d = r.below(dim);
    float lo = q.get_min()[d], hi = q.get_max()[d];
    float v = r.chance(0.1) ? lo : r.chance(0.1) ? hi : static_cast<float>(lo + (r.unit() * 1.4 - 0.2) * (double(hi) - lo));
    int code = q.quantize(v, lo, hi);
    eval();
    VF_CHECK(code >= 0 && code <= kTop, "code-range", tn, " code ", code, " for ", v);
    if (hi == lo) { VF_CHECK(code == 0, "code-constant", tn, " constant component coded ", code); continue; }
    if (v >= hi) { VF_CHECK(code == kTop, "code-saturate", tn, " value ", v, " above ", hi, " coded ", code); continue; }
    if (v <= lo) { VF_CHECK(code == 0, "code-saturate", tn, " value ", v, " below ", lo, " coded ", code); continue; }
    double st = (double(hi) - lo) / kTop, back = lo + code * st;
    double e = 1e-4 * st + 1e-6 * (std::fabs(hi) + std::fabs(lo));
    VF_CHECK(v >= back - e && v < back + st + e, "code-level", tn, " value ", v, " in [", lo, ",", hi, "] coded ", code, " level ", back, " step ", st);
  }
  Tmp t("q");
  { std::ofstream o(t.s("q"), std::ios::binary); q.save(o); }
  Q p;
  { std::ifstream i(t.s("q"), std::ios::binary); p.load(i); }
  std::vector<uint8_t> a(dim + 1, 0), b(dim + 1, 0);
  q.encode(all.data(), a.data()), p.encode(all.data(), b.data());
  VF_CHECK(a == b, "code-reload", tn, " codes differ after save and load");
  distinct(Hash().add(all.data(), all.size() * 4).get());
}
// RaBitQ: estimated distances are unbiased and concentrate as 1/sqrt(dimension).
static void rabitq(uint64_t c, Rng &r) {
  using S = alaya::RaBitQSpace<>;
  size_t dim = 64 + r.below(c % 2 ? 200 : 700), n = 33 + r.below(60);
  if (c % 8 == 6) dim = std::array<size_t, 6>{1023, 1024, 1100, 2047, 2048, 2100}[(c / 8 + r.below(2) * 3) % 6], count("wide_vectors");
  MetricType metric = std::array{MetricType::L2, MetricType::IP, MetricType::COS}[c % 3];
  auto sp = std::make_unique<S>(static_cast<uint32_t>(n), dim, metric, alaya::RocksDBConfig::default_config(),
                                c % 5 == 4 && dim < 1000 ? alaya::RotatorType::MatrixRotator : alaya::RotatorType::FhtKacRotator);
  std::vector<float> all;
  for (size_t i = 0; i < n; ++i) {
    auto v = gen<float>(r, dim, 0);
    if (i && r.chance(0.05)) v.assign(all.begin(), all.begin() + static_cast<long>(dim));  // the same vector again
    if (metric == MetricType::COS) {
      double s = 0;
      for (float x : v) s += double(x) * x;
      for (float &x : v) x = static_cast<float>(x / std::sqrt(s));
    }
    all.insert(all.end(), v.begin(), v.end());
  }
  sp->fit(all.data(), static_cast<uint32_t>(n));
  std::string script = cat("rabitq dim=", dim, " n=", n, " ", mname(metric), ": ");
  auto vec = [&](size_t i) { return all.data() + i * dim; };
  std::vector<std::vector<uint32_t>> nb(n);
  for (size_t i = 0; i < n; ++i) {
    std::set<uint32_t> s;
    size_t deg = r.chance(0.8) ? 32 : 1 + r.below(32);
    while (s.size() < deg) {
      auto j = static_cast<uint32_t>(r.below(n));
      if (j != i) s.insert(j);
    }
    nb[i].assign(s.begin(), s.end());
    std::vector<alaya::Neighbor<uint32_t, float>> nn;
    for (uint32_t j : nb[i]) nn.emplace_back(j, sp->get_distance(static_cast<uint32_t>(i), j));
    sp->update_nei(static_cast<uint32_t>(i), nn);
  }
  Tmp t("rq");
  for (int pass = 0; pass < 2; ++pass) {
    double se = 0, sn = 0;
    size_t cnt = 0;
    VF_CHECK(sp->get_data_num() == n && sp->get_dim() == dim, "rabitq-shape", script, "count or dimension changed");
    for (size_t i = 0; i < n; ++i) VF_CHECK(memcmp(sp->get_data_by_id(static_cast<uint32_t>(i)), vec(i), dim * 4) == 0, "rabitq-vector", script, "vector ", i, " changed");
    for (int k = 0; k < 6; ++k) {
      auto q = gen<float>(r, dim, 0);
      if (metric == MetricType::COS) {
        double s = 0;
        for (float x : q) s += double(x) * x;
        for (float &x : q) x = static_cast<float>(x / std::sqrt(s));
      }
      auto qc = sp->get_query_computer(q.data());
      for (int j = 0; j < 8; ++j) {
        size_t ce = r.below(n);
        qc.load_centroid(static_cast<uint32_t>(ce));
        double mag, e = exact(metric, q.data(), vec(ce), dim, mag);
        VF_CHECK(std::fabs(qc.get_exact_qr_c_dist() - e) <= 1e-4 * mag, "rabitq-exact", script, "distance to the centre ", qc.get_exact_qr_c_dist(), " expected ", e);
        for (size_t i = 0; i < nb[ce].size(); ++i) {
          VF_CHECK(qc.get_edges()[i] == nb[ce][i], "rabitq-edges", script, "neighbour ", i, " of ", ce, " changed");
          double truth = exact(metric, q.data(), vec(nb[ce][i]), dim, mag);
          double oc = 0, qn = 0;
          for (size_t d = 0; d < dim; ++d) {
            double a = double(vec(nb[ce][i])[d]) - vec(ce)[d], b = metric == MetricType::L2 ? double(q[d]) - vec(ce)[d] : double(q[d]);
            if (metric != MetricType::L2) b = double(q[d]);
            oc += a * a, qn += b * b;
          }
          double est = qc(i);
          if (metric != MetricType::L2) est -= 1;  // estimates of similarities carry a constant 1
          double sigma = (metric == MetricType::L2 ? 2.0 : 1.0) * 0.76 * std::sqrt(oc * qn) / std::sqrt(double(dim - 1));
          if (metric != MetricType::L2) {  // residual part is estimated against the query, the centre part exactly
            double cc = 0;
            for (size_t d = 0; d < dim; ++d) cc += double(vec(ce)[d]) * vec(ce)[d];
            sigma = 0.76 * std::sqrt(oc) * (std::sqrt(qn) + std::sqrt(cc)) / std::sqrt(double(dim - 1));
          }
          eval();
          double err = est - truth;
          VF_CHECK(std::fabs(err) <= 9 * sigma + 1e-3 * mag, "rabitq-estimate", script, "estimate ", est, " true ", truth, " sigma ", sigma);
          if (sigma > 0) se += err * err / (sigma * sigma), ++cnt;
          sn += err;
        }
      }
    }
    VF_CHECK(cnt == 0 || std::sqrt(se / double(cnt)) <= 2.0, "rabitq-spread", script, "relative error of the estimates is ", std::sqrt(se / double(cnt)));
    if (pass == 0) {
      sp->set_ep(static_cast<uint32_t>(n / 2));
      sp->save(t.s("f"));
      sp = std::make_unique<S>();
      sp->load(t.s("f"));
      VF_CHECK(sp->get_ep() == n / 2, "rabitq-shape", script, "entry point changed by save and load");
      count("reloads");
    }
  }
  distinct(Hash().add(all.data(), all.size() * 4).get());
}

int main(int argc, char **argv) {
  init(argc, argv);
  auto &m = ctx().mode;
  if (m == "raw") {
    cases("raw-float", tiered(240, 4000), [](uint64_t c, Rng &r) { raw_history<alaya::RawSpace<float, float, uint32_t>, float, uint32_t>(c, r, "float"); });
    cases("raw-double", tiered(120, 2000), [](uint64_t c, Rng &r) { raw_history<alaya::RawSpace<double, float, uint64_t>, double, uint64_t>(c, r, "double"); });
    cases("raw-int8", tiered(120, 2000), [](uint64_t c, Rng &r) { raw_history<alaya::RawSpace<int8_t, float, uint32_t>, int8_t, uint32_t>(c, r, "int8"); });
    cases("raw-uint8", tiered(120, 2000), [](uint64_t c, Rng &r) { raw_history<alaya::RawSpace<uint8_t, float, uint64_t>, uint8_t, uint64_t>(c, r, "uint8"); });
  } else if (m == "rawscalar") {
    cases("raw-scalar", tiered(30, 400), raw_scalar);
  } else if (m == "quant") {
    cases("sq8", tiered(250, 5000), [](uint64_t c, Rng &r) { quant_history<alaya::SQ8Space<float, float, uint32_t>, float, 255>(c, r, "sq8"); });
    cases("sq4", tiered(250, 5000), [](uint64_t c, Rng &r) { quant_history<alaya::SQ4Space<float, float, uint32_t>, float, 15>(c, r, "sq4"); });
    cases("quantizer8", tiered(200, 5000), [](uint64_t c, Rng &r) { quantizer<alaya::SQ8Quantizer<float>, 255>(c, r, "sq8"); });
    cases("quantizer4", tiered(200, 5000), [](uint64_t c, Rng &r) { quantizer<alaya::SQ4Quantizer<float>, 15>(c, r, "sq4"); });
  } else if (m == "rabitq") {
    cases("rabitq", tiered(40, 800), rabitq);
  }
  return finish();
}
