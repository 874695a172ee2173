// S01 scalar store vs map model; S02 metadata filters on every path vs reference evaluator; S03 encodings and hostile bytes.
#include "vf.hpp"
#include <sys/wait.h>
#include <memory>
#include <thread>
#include <optional>
#include "storage/rocksdb_storage.hpp"
#include "utils/binary_io.hpp"
#include "utils/index_encoding.hpp"
#include "utils/metadata_filter.hpp"
#include "utils/metadata_filter_matcher.hpp"
using namespace alaya;
using vf::Rng;
using Store = RocksDBStorage<uint32_t>;
using Model = std::map<uint32_t, ScalarData>;

static double rnd_double(Rng &r) {
#ifdef __FAST_MATH__  // the shipped flags assume these values away
  static const double k[] = {0.0, 1.0, -1.0, 0.5, 1e300, -1e300, 2.0, 3.0};
  if (r.chance(0.7)) return k[r.below(std::size(k))];
  return static_cast<double>(r.range(-3, 3)) + 0.25;
#else
  static const double k[] = {0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e300, 5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2.0, 3.0,
                             std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
  if (r.chance(0.7)) return k[r.below(std::size(k))];
  if (r.chance(0.5)) return static_cast<double>(r.range(-3, 3));
  return (r.unit() - 0.5) * 10;
#endif
}
#ifdef __FAST_MATH__
static constexpr bool kNan = false;
#else
static constexpr bool kNan = true;
#endif
static int64_t rnd_int(Rng &r) {
  static const int64_t k[] = {0, 1, -1, 2, 5, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 255, 256, -256, 65536};
  return r.chance(0.6) ? k[r.below(std::size(k))] : r.range(-6, 6);
}
static std::string rnd_str(Rng &r) {
  static const std::string k[] = {"", "a", "b", "a_b", "a_", "_a", "_", "__", "a_b_1", "a_1", "ab", "tech", "tech_news", "i_8000000000000001", "s_a", "b_1",
                                  std::string("a\0b", 3), std::string("a\0", 2), "\xff", "\xff\xff", "x y", "\xc3\xa9", "d_", "1", "01", "9", "10"};
  if (r.chance(0.85)) return k[r.below(std::size(k))];
  std::string s(r.below(300), 'q');
  return s + k[r.below(std::size(k))];
}
static MetadataValue rnd_value(Rng &r) {
  switch (r.below(4)) {
    case 0: return rnd_int(r);
    case 1: return rnd_double(r);
    case 2: return rnd_str(r);
    default: return r.chance(0.5);
  }
}
static const std::vector<std::string> kFields = {"a", "cat", "price", "n", "flag", "a b", "caté", "pri"};
static const std::vector<std::string> kUnderFields = {"a_x", "user_id", "is_new"};
static ScalarData rnd_data(Rng &r, uint64_t tag, const std::vector<std::string> &fields) {
  ScalarData d;
  switch (r.below(6)) {
    case 0: d.item_id = ""; break;
    case 1: d.item_id = rnd_str(r); break;
    default: d.item_id = "item" + std::to_string(r.below(30)); break;
  }
  d.document = r.chance(0.1) ? std::string(r.below(5000), 'D') : vf::cat("doc", tag, rnd_str(r));
  size_t n = r.below(fields.size() + 1);
  for (size_t i = 0; i < n; ++i) d.metadata[fields[r.below(fields.size())]] = rnd_value(r);
  return d;
}
// a record again with part of its metadata as it was: what an application's update usually is
static ScalarData evolve(Rng &r, const ScalarData &old, uint64_t tag, const std::vector<std::string> &fields) {
  auto d = rnd_data(r, tag, fields);
  d.item_id = old.item_id;
  for (auto &[k, v] : old.metadata) if (r.chance(0.65)) d.metadata[k] = v;
  if (r.chance(0.2)) d = old;
  vf::count("evolving_updates");
  return d;
}
static bool veq(const MetadataValue &a, const MetadataValue &b) {  // bitwise for doubles
  if (a.index() != b.index()) return false;
  if (std::holds_alternative<double>(a)) {
    double x = std::get<double>(a), y = std::get<double>(b);
    return memcmp(&x, &y, 8) == 0;
  }
  return a == b;
}
static bool deq(const ScalarData &a, const ScalarData &b) {
  if (a.item_id != b.item_id || a.document != b.document || a.metadata.size() != b.metadata.size()) return false;
  for (auto &[k, v] : a.metadata) {
    auto it = b.metadata.find(k);
    if (it == b.metadata.end() || !veq(v, it->second)) return false;
  }
  return true;
}
static std::string show(const MetadataValue &v) {
  return std::visit([](auto &x) {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, std::string>) return "\"" + x + "\"";
    else if constexpr (std::is_same_v<T, bool>) return std::string(x ? "true" : "false");
    else return vf::cat(x, sizeof(T) == 8 && std::is_floating_point_v<T> ? "f" : "i");
  }, v);
}
static RocksDBConfig cfg(const std::string &p, std::vector<std::string> idx) {
  RocksDBConfig c;
  c.db_path_ = p;
  c.write_buffer_size_ = 1 << 20;
  c.block_cache_size_mb_ = 8;
  c.max_background_compactions_ = 1;
  c.max_background_flushes_ = 1;
  c.indexed_fields_ = std::move(idx);
  return c;
}

static void compare(Store &s, const Model &m, uint32_t max_id, const std::set<std::string> &known_items, const std::string &why) {
  VF_CHECK(s.count() == m.size(), "store:count", why, ": count ", s.count(), " want ", m.size());
  std::vector<uint32_t> ids;
  for (uint32_t i = 0; i < max_id + 3; ++i) ids.push_back(i);
  std::reverse(ids.begin(), ids.end());
  auto raws = s.batch_get_raw_values(ids);
  auto items = s.batch_get_item_id_only(ids);
  auto datas = s.batch_get(ids);
  VF_CHECK(raws.size() == ids.size() && items.size() == ids.size() && datas.size() == ids.size(), "store:batch-size", why);
  for (size_t k = 0; k < ids.size(); ++k) {
    uint32_t id = ids[k];
    auto it = m.find(id);
    bool live = it != m.end();
    VF_CHECK(s.is_valid(id) == live, "store:exists", why, ": is_valid(", id, ") != ", live);
    std::string raw;
    bool got = s.get_raw_value(id, raw);
    VF_CHECK(got == live && (live || raws[k].empty()), "store:exists", why, ": raw value of ", id);
    if (live) {
      VF_CHECK(deq(s[id], it->second), "store:value", why, ": record ", id, " differs");
      VF_CHECK(raws[k] == raw && items[k] == it->second.item_id && deq(datas[k], it->second), "store:batch", why, ": batch answers for ", id);
    } else {
      VF_CHECK(items[k].empty() && datas[k].item_id.empty() && datas[k].metadata.empty(), "store:ghost", why, ": removed record ", id, " still in batch answers");
    }
  }
  std::map<std::string, uint32_t> by_item;
  for (auto &[id, d] : m) if (!d.item_id.empty()) VF_CHECK(by_item.emplace(d.item_id, id).second, "store:dup-item", why, ": two records own ", d.item_id);
  for (auto &it : known_items) {
    auto f = s.find_by_item_id(it);
    auto w = by_item.find(it);
    bool ok = w == by_item.end() ? !f.has_value() : (f && *f == w->second);
    VF_CHECK(ok || it.empty(), "store:item", why, ": find_by_item_id(", it, ") = ", f ? std::to_string(*f) : "none", " want ", w == by_item.end() ? "none" : std::to_string(w->second));
    if (!it.empty()) VF_CHECK(s.item_id_available(it) == (w == by_item.end()), "store:item", why, ": item_id_available(", it, ")");
  }
  auto all = s.scan_with_filter([](const ScalarData &) { return true; });
  VF_CHECK(all.size() == m.size(), "store:scan", why, ": scan returned ", all.size(), " want ", m.size());
  size_t i = 0;
  for (auto &[id, d] : m) {
    if (i < all.size()) VF_CHECK(all[i].first == id && deq(all[i].second, d), "store:scan", why, ": scan entry ", i);
    ++i;
  }
  size_t lim = m.size() / 2;
  if (lim) {
    auto some = s.scan_with_filter([](const ScalarData &) { return true; }, lim);
    bool ok = some.size() == lim;
    i = 0;
    for (auto &[id, d] : m) if (i < some.size()) ok &= some[i++].first == id;
    VF_CHECK(ok, "store:scan-limit", why, ": limited scan");
  }
  vf::count("full_comparisons");
}
// index lookups must agree with the model for indexed fields
static void compare_index(Store &s, const Model &m, Rng &r, const std::string &why) {
  auto sorted = [](std::vector<uint32_t> v) { std::sort(v.begin(), v.end()); return v; };
  for (auto &f : s.config().indexed_fields_) {
    std::vector<MetadataValue> vals;
    for (auto &[id, d] : m) if (auto it = d.metadata.find(f); it != d.metadata.end()) vals.push_back(it->second);
    for (int i = 0; i < 4; ++i) vals.push_back(rnd_value(r));
    for (auto &v : vals) {
      std::vector<uint32_t> want;
      for (auto &[id, d] : m) if (auto it = d.metadata.find(f); it != d.metadata.end() && veq(it->second, v)) want.push_back(id);
      auto got = sorted(s.get_ids_by_field_value(f, v));
      VF_CHECK(got == want, "store:index-eq", why, ": ids with ", f, "=", show(v), ": ", got.size(), " want ", want.size());
    }
    for (int i = 0; i < 4; ++i) {
      int64_t a = rnd_int(r), b = rnd_int(r);
      std::vector<uint32_t> want;
      for (auto &[id, d] : m) if (auto it = d.metadata.find(f); it != d.metadata.end() && std::holds_alternative<int64_t>(it->second) && std::get<int64_t>(it->second) >= a && std::get<int64_t>(it->second) <= b) want.push_back(id);
      auto got = sorted(s.get_ids_by_int_range(f, a, b));
      VF_CHECK(got == want, "store:index-int-range", why, ": ", f, " in [", a, ",", b, "]: ", got.size(), " want ", want.size());
      double x = rnd_double(r), y = rnd_double(r);
      if (x == 0 || y == 0) continue;  // which zero a range bound includes is decided in the filter layer
      want.clear();
      for (auto &[id, d] : m) if (auto it = d.metadata.find(f); it != d.metadata.end() && std::holds_alternative<double>(it->second) && std::get<double>(it->second) >= x && std::get<double>(it->second) <= y) want.push_back(id);
      got = sorted(s.get_ids_by_double_range(f, x, y));
      VF_CHECK(got == want, "store:index-double-range", why, ": ", f, " in [", x, ",", y, "]: ", got.size(), " want ", want.size());
    }
    vf::count("index_comparisons");
  }
}

// copies the database files while no background work changes them
static void snapshot_files(const std::string &from, const std::string &to) {
  namespace fs = std::filesystem;
  auto list = [&] {
    std::map<std::string, uint64_t> m;
    for (auto &e : fs::directory_iterator(from)) { std::error_code ec; m[e.path().filename()] = fs::file_size(e.path(), ec); }
    return m;
  };
  for (int k = 0; k < 200; ++k) {
    try {
      fs::remove_all(to);
      auto a = list();
      fs::copy(from, to, fs::copy_options::recursive);
      usleep(20000);
      if (list() == a) break;
    } catch (const fs::filesystem_error &) {
    }
    usleep(20000);
  }
  fs::remove(to + "/LOCK");
}

static void store() {
  vf::cases("store", vf::tiered(160, 3000), [](uint64_t ci, Rng &r) {
    vf::Tmp t("db");
    std::string path = t.s("db");
    std::vector<std::string> fields(kFields.begin(), kFields.end());
    std::vector<std::string> idx;
    for (auto &f : fields) if (r.chance(0.5)) idx.push_back(f);
    auto s = std::make_unique<Store>(cfg(path, idx));
    Model m;
    std::set<std::string> items = {"", "nope"};
    uint32_t max_id = 0;
    uint64_t tag = 0;
    vf::Hash sig;
    int reopens = 0, replaced = 0, refused = 0;
    auto owner = [&](const std::string &it) -> std::optional<uint32_t> {
      for (auto &[id, d] : m) if (d.item_id == it) return id;
      return std::nullopt;
    };
    int steps = 25 + static_cast<int>(r.below(50));
    for (int k = 0; k < steps; ++k) {
      double u = r.unit();
      sig.add(static_cast<int>(u * 10));
      if (u < 0.35) {
        uint32_t id = static_cast<uint32_t>(r.chance(0.03) ? 4000000000u + r.below(100) : r.below(25));
        auto d = rnd_data(r, ++tag, fields);
        if (m.count(id) && r.chance(0.3)) d = evolve(r, m[id], tag, fields);
        items.insert(d.item_id);
        auto o = owner(d.item_id);
        bool want = d.item_id.empty() || !o || *o == id;
        bool got = s->insert(id, d);
        VF_CHECK(got == want, "store:insert-verdict", "insert(", id, ",", d.item_id, ") = ", got, " want ", want);
        if (got) {
          replaced += static_cast<int>(m.count(id));
          m[id] = d;
          if (id < 1000) max_id = std::max(max_id, id);
        } else ++refused;
      } else if (u < 0.5) {
        uint32_t start = static_cast<uint32_t>(r.below(20));
        std::vector<ScalarData> b;
        std::set<std::string> seen;
        bool want = true;
        for (uint64_t i = 0; i < 1 + r.below(6); ++i) {
          auto d = rnd_data(r, ++tag, fields);
          if (r.chance(0.6)) d.item_id = "b" + std::to_string(tag);
          items.insert(d.item_id);
          if (!d.item_id.empty()) {
            if (!seen.insert(d.item_id).second) want = false;
            auto o = owner(d.item_id);
            if (o && *o != start + i) want = false;
          }
          b.push_back(d);
        }
        bool got = s->batch_insert(start, b.begin(), b.end());
        VF_CHECK(got == want, "store:batch-verdict", "batch_insert = ", got, " want ", want);
        if (got) for (size_t i = 0; i < b.size(); ++i) { m[static_cast<uint32_t>(start + i)] = b[i]; max_id = std::max<uint32_t>(max_id, static_cast<uint32_t>(start + i)); }
        else ++refused;
      } else if (u < 0.65) {
        uint32_t id = static_cast<uint32_t>(r.below(25));
        auto d = rnd_data(r, ++tag, fields);
        if (m.count(id) && r.chance(0.4)) d = r.chance(0.6) ? evolve(r, m[id], tag, fields) : (d.item_id = m[id].item_id, d);
        items.insert(d.item_id);
        auto o = owner(d.item_id);
        bool want = m.count(id) && (d.item_id.empty() || !o || *o == id);
        bool got = s->update(id, d);
        VF_CHECK(got == want, "store:update-verdict", "update(", id, ") = ", got, " want ", want);
        if (got) m[id] = d;
        else ++refused;
      } else if (u < 0.83) {
        uint32_t id = static_cast<uint32_t>(r.below(25));
        bool want = m.count(id) > 0;
        bool got = s->remove(id);
        VF_CHECK(got == want, "store:remove-verdict", "remove(", id, ") = ", got, " want ", want);
        m.erase(id);
      } else if (u < 0.88) {
        if (r.chance(0.5)) s->flush(); else s->compact();
      } else if (u < 0.92) {  // clean close and reopen
        s.reset();
        s = std::make_unique<Store>(cfg(path, idx));
        ++reopens;
        compare(*s, m, max_id, items, "after reopen");
      } else if (u < 0.95) {  // checkpoint opens as the same store
        auto cp = t.s(vf::cat("cp", k));
        s->save(cp);
        Store c(cfg(cp, idx));
        compare(c, m, max_id, items, "checkpoint");
        compare_index(c, m, r, "checkpoint");
        ++reopens;
        vf::count("checkpoints");
      } else {  // a copy of the files as they are, as a dying process leaves them
        auto cp = t.s(vf::cat("die", k));
        snapshot_files(path, cp);
        Store c(cfg(cp, idx));
        compare(c, m, max_id, items, "after process death");
        compare_index(c, m, r, "after process death");
        ++reopens;
        vf::count("process_deaths");
      }
    }
    compare(*s, m, max_id, items, "end");
    compare_index(*s, m, r, "end");
    {  // moves keep everything
      Store b(std::move(*s));
      compare(b, m, max_id, items, "moved");
    }
    s = std::make_unique<Store>(cfg(path, idx));
    compare(*s, m, max_id, items, "reopened at the end");
    vf::eval();
    vf::count("operations", static_cast<uint64_t>(steps));
    vf::count("refused_operations", static_cast<uint64_t>(refused));
    sig.add(m.size()).add(ci);
    if (reopens && (replaced || refused)) vf::distinct(sig.get());
    vf::sample(vf::cat(steps, " operations, ", refused, " refused, ", replaced, " replacements, ", reopens, " reopens, ", m.size(), " live, ", idx.size(), " indexed fields"));
  });
  // a second handle on an open store is a read-only view with the same answers
  vf::cases("store-ro", vf::tiered(8, 40), [](uint64_t, Rng &r) {
    vf::Tmp t("db");
    auto path = t.s("db");
    Store s(cfg(path, {"a"}));
    Model m;
    for (uint32_t i = 0; i < 12; ++i) {
      auto d = rnd_data(r, i, kFields);
      d.item_id = "i" + std::to_string(i);
      s.insert(i, d);
      m[i] = d;
    }
    s.flush();
    Store ro(cfg(path, {"a"}));
    VF_CHECK(ro.is_read_only(), "store:second-writer", "a second handle on a locked store is writable");
    compare(ro, m, 12, {"i1", "i2", "zz"}, "read-only handle");
    bool threw = false;
    try { ro.insert(50, rnd_data(r, 1, kFields)); } catch (const std::exception &) { threw = true; }
    VF_CHECK(threw, "store:ro-write", "write through a read-only handle was accepted");
    vf::eval();
  });
}

// concurrent writers and readers on one handle
static void store_conc() {
  vf::cases("store-conc", vf::tiered(10, 120), [](uint64_t, Rng &r) {
    vf::Tmp t("db");
    Store s(cfg(t.s("db"), {"cat"}));
    const int T = 3, N = 40;
    std::atomic<int> wins[8];
    for (auto &w : wins) w = 0;
    std::vector<std::thread> th;
    std::atomic<uint64_t> seen{0};
    std::atomic<int> running{T};
    for (int w = 0; w < T; ++w) {
      uint64_t sd = r.next();
      th.emplace_back([&, w, sd] {
        Rng q(sd);
        for (int k = 0; k < N; ++k) {
          uint32_t id = static_cast<uint32_t>(w * 1000 + k);
          ScalarData d;
          bool contested = k % 5 == 0;
          d.item_id = contested ? vf::cat("contested", k / 5) : vf::cat("w", w, "_", k);
          d.document = vf::cat("w", w, "k", k);
          d.metadata["cat"] = static_cast<int64_t>(w);
          if (s.insert(id, d)) { if (contested) wins[k / 5]++; }
          if (q.chance(0.2)) s.update(id, d);
          if (q.chance(0.3) && !contested) s.remove(id);
        }
        running--;
      });
    }
    th.emplace_back([&] {
      while (running.load() > 0) {
        for (auto &[id, d] : s.scan_with_filter([](const ScalarData &) { return true; })) {
          VF_CHECK(d.document == vf::cat("w", id / 1000, "k", id % 1000), "store:conc-value", "record ", id, " reads ", d.document);
          seen++;
        }
        s.get_ids_by_field_value("cat", static_cast<int64_t>(1));
        s.count();
      }
    });
    for (auto &x : th) x.join();
    for (int i = 0; i < 8; ++i) VF_CHECK(wins[i] == 1, "store:conc-unique", "contested item id ", i, " was granted ", wins[i].load(), " times");
    auto all = s.scan_with_filter([](const ScalarData &) { return true; });
    VF_CHECK(all.size() == s.count(), "store:conc-count", "count ", s.count(), " records ", all.size());
    std::set<std::string> u;
    for (auto &[id, d] : all) {
      VF_CHECK(u.insert(d.item_id).second, "store:dup-item", "item ", d.item_id, " twice");
      auto f = s.find_by_item_id(d.item_id);
      VF_CHECK(f && *f == id, "store:item", "find ", d.item_id);
    }
    vf::eval();
    vf::count("concurrent_reads", seen);
    vf::Hash h;
    h.add(seen.load()).add(all.size());
    vf::distinct(h.get());
  });
}

// ---------------------------------------------------------------- S02
static int cmp3(const MetadataValue &a, const MetadataValue &b, bool &ok) {
  ok = a.index() == b.index();
  if (!ok) return 0;
  return std::visit([&](auto &x) -> int {
    auto &y = std::get<std::decay_t<decltype(x)>>(b);
    if (x < y) return -1;
    if (y < x) return 1;
    ok = x == y;
    return 0;
  }, a);
}
static bool ref_cond(const FilterCondition &c, const MetadataMap &m) {
  auto it = m.find(c.field);
  if (it == m.end()) return false;
  bool ok;
  int k = cmp3(it->second, c.value, ok);
  bool in = false;
  for (auto &v : c.values) { bool o2; if (cmp3(it->second, v, o2) == 0 && o2) in = true; }
  switch (c.op) {
    case FilterOp::EQ: return ok && k == 0;
    case FilterOp::NE: return !(ok && k == 0);
    case FilterOp::GT: return ok && k > 0;
    case FilterOp::GE: return ok && k >= 0;
    case FilterOp::LT: return ok && k < 0;
    case FilterOp::LE: return ok && k <= 0;
    case FilterOp::IN_SET: return in;
    case FilterOp::NOT_IN_SET: return !in;
    case FilterOp::CONTAINS:
      return std::holds_alternative<std::string>(it->second) && std::holds_alternative<std::string>(c.value) &&
             std::get<std::string>(it->second).find(std::get<std::string>(c.value)) != std::string::npos;
  }
  return false;
}
static bool ref(const MetadataFilter &f, const MetadataMap &m) {
  if (f.conditions.empty() && f.sub_filters.empty()) return true;
  std::vector<bool> b;
  for (auto &c : f.conditions) b.push_back(ref_cond(c, m));
  for (auto &s : f.sub_filters) b.push_back(ref(*s, m));
  if (f.logic_op == LogicOp::NOT) return !b[0];
  for (bool x : b) if (x == (f.logic_op == LogicOp::OR)) return x;
  return f.logic_op == LogicOp::AND;
}
static const char *opname(FilterOp o) {
  static const char *n[] = {"==", "!=", ">", ">=", "<", "<=", "in", "nin", "contains"};
  return n[static_cast<int>(o)];
}
static std::string show(const MetadataFilter &f) {
  std::string s = f.logic_op == LogicOp::AND ? "and(" : f.logic_op == LogicOp::OR ? "or(" : "not(";
  for (auto &c : f.conditions) {
    s += c.field + opname(c.op);
    if (c.values.empty()) s += show(c.value);
    for (auto &v : c.values) s += show(v) + "|";
    s += ",";
  }
  for (auto &x : f.sub_filters) s += show(*x) + ",";
  return s + ")";
}
static MetadataFilter rnd_filter(Rng &r, const std::vector<std::string> &fields, const std::vector<MetadataValue> &pool, int depth) {
  MetadataFilter f;
  f.logic_op = static_cast<LogicOp>(r.below(3));
  if (depth == 0 && r.chance(0.6)) f.logic_op = LogicOp::AND;
  size_t n = f.logic_op == LogicOp::NOT || r.chance(0.5) ? 1 : 1 + r.below(3);
  if (depth == 0 && r.chance(0.03)) n = 0;
  for (size_t i = 0; i < n; ++i) {
    if (depth < 3 && r.chance(depth == 0 ? 0.35 : 0.3)) {
      f.add_sub_filter(rnd_filter(r, fields, pool, depth + 1));
      continue;
    }
    FilterCondition c;
    c.field = r.chance(0.03) ? "missing" : fields[r.below(fields.size())];
    c.op = static_cast<FilterOp>(r.below(9));
    c.value = pool.empty() || r.chance(0.35) ? rnd_value(r) : pool[r.below(pool.size())];
    if (kNan && r.chance(0.03)) c.value = std::numeric_limits<double>::quiet_NaN();
    if (c.op == FilterOp::IN_SET || c.op == FilterOp::NOT_IN_SET)
      for (size_t k = r.below(4); k > 0; --k) c.values.push_back(pool.empty() || r.chance(0.4) ? rnd_value(r) : pool[r.below(pool.size())]);
    f.conditions.push_back(c);
  }
  return f;
}
static void filters() {
  vf::cases("filter", vf::tiered(160, 3000), [](uint64_t ci, Rng &r) {
    vf::Tmp t("db");
    bool under = ci % 4 == 3;  // field names with underscores: each alone in the index (a shared index of such names is a listed finding)
    std::vector<std::string> fields, idx;
    if (under) {
      fields = {kUnderFields[r.below(kUnderFields.size())], "plain"};
      idx = {fields[0]};
    } else {
      for (int i = 0; i < 3; ++i) fields.push_back(kFields[r.below(kFields.size())]);
      for (auto &f : fields) if (r.chance(0.6) && std::find(idx.begin(), idx.end(), f) == idx.end()) idx.push_back(f);
    }
    Store s(cfg(t.s("db"), idx));
    uint32_t n = 1 + static_cast<uint32_t>(r.below(50));
    if (ci == 0) n = 2100;  // more than one scan batch
    Model m;
    std::vector<uint32_t> order;
    for (uint32_t i = 0; i < n; ++i) order.push_back(i);
    for (uint32_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);  // write order must not matter
    for (auto i : order) {
      auto d = rnd_data(r, i, fields);
      if (kNan && r.chance(0.02)) d.metadata[fields[0]] = std::numeric_limits<double>::quiet_NaN();
      d.item_id = "i" + std::to_string(i);
      s.insert(i, d);
      m[i] = d;
    }
    for (uint32_t i = 0; i < n; ++i) {
      if (r.chance(0.15)) { s.remove(i); m.erase(i); }
      else if (r.chance(0.3)) {
        for (uint64_t again = r.range(1, 3); again--;) {
          auto d = r.chance(0.6) ? evolve(r, m[i], i, fields) : rnd_data(r, i, fields);
          d.item_id = "i" + std::to_string(i);
          s.update(i, d);
          m[i] = d;
        }
      }
    }
    std::vector<MetadataValue> pool;
    for (auto &[id, d] : m) for (auto &[k, v] : d.metadata) if (pool.size() < 60) pool.push_back(v);
    int q = ci == 0 ? 8 : 60;
    for (int k = 0; k < q; ++k) {
      auto f = rnd_filter(r, fields, pool, 0);
      std::set<uint32_t> want;
      for (auto &[id, d] : m) if (ref(f, d.metadata)) want.insert(id);
      MetadataFilterExecutor<uint32_t> ex(f, &s, n);
      const char *path = ex.has_index_fast_path() ? "index" : "scan";
      auto why = vf::cat(path, " path, filter ", show(f), ", ", m.size(), " live of ", n);
      // one by one
      std::set<uint32_t> got;
      for (auto &[id, d] : m) {
        VF_CHECK(f.evaluate(d.metadata) == (want.count(id) > 0), "filter:evaluate", why, ": record ", id);
        if (ex.match(id)) got.insert(id);
      }
      VF_CHECK(got == want, vf::cat("filter:match-", path), why, ": match() selects ", got.size(), " want ", want.size());
      if (!f.is_empty()) {
        for (uint32_t i = 0; i < n; ++i) if (!m.count(i)) VF_CHECK(!ex.match(i), "filter:match-dead", why, ": removed record ", i, " matches");
        auto bs = ex.build_blocked_bitset();
        std::set<uint32_t> g2;
        for (uint32_t i = 0; i < n; ++i) if (!bs.blocked_.get(i)) g2.insert(i);
        VF_CHECK(g2 == want, vf::cat("filter:bitset-", path), why, ": bitset selects ", g2.size(), " want ", want.size());
        VF_CHECK(bs.matched_count_ == want.size(), vf::cat("filter:bitset-count-", path), why, ": matched_count ", bs.matched_count_, " want ", want.size());
        std::vector<uint32_t> ids;
        for (uint32_t i = 0; i < n; ++i) if (r.chance(0.5)) ids.push_back(n - 1 - i);
        std::vector<uint8_t> mt;
        ex.eval_offsets(ids, mt);
        bool ok = mt.size() == ids.size();
        for (size_t i = 0; ok && i < ids.size(); ++i) ok = (mt[i] != 0) == (want.count(ids[i]) > 0);
        VF_CHECK(ok, vf::cat("filter:offsets-", path), why, ": eval_offsets");
        if (ex.has_index_fast_path()) {
          std::set<uint32_t> g3(ex.indexed_ids().begin(), ex.indexed_ids().end());
          VF_CHECK(g3 == want && g3.size() == ex.indexed_ids().size() && ex.indexed_count() == want.size(), "filter:indexed-ids", why, ": indexed ids ", ex.indexed_count(), " want ", want.size());
        }
      }
      auto sc = s.scan_with_filter([&](const ScalarData &d) { return f.evaluate(d.metadata); });
      std::set<uint32_t> g4;
      for (auto &[id, d] : sc) g4.insert(id);
      VF_CHECK(g4 == want, "filter:scan", why, ": scan selects ", g4.size(), " want ", want.size());
      vf::eval();
      vf::count(ex.has_index_fast_path() ? "index_path" : "scan_path");
      if (!want.empty() && want.size() < m.size()) {
        vf::Hash h;
        h.add(show(f)).add(want.size()).add(ci);
        vf::distinct(h.get());
        if (k == 0) vf::sample(why + vf::cat(": ", want.size(), " match"));
      }
    }
  });
  // several indexed fields whose names share prefixes up to an underscore
  vf::cases("filter-shared-index", vf::tiered(30, 300), [](uint64_t, Rng &r) {
    vf::Tmp t("db");
    std::vector<std::string> fields = {"a", "a_b", "a_s"};
    Store s(cfg(t.s("db"), fields));
    uint32_t n = 30;
    Model m;
    for (uint32_t i = 0; i < n; ++i) {
      auto d = rnd_data(r, i, fields);
      d.item_id = "i" + std::to_string(i);
      s.insert(i, d);
      m[i] = d;
    }
    for (uint32_t i = 0; i < n; ++i) if (r.chance(0.3)) { auto d = rnd_data(r, i, fields); d.item_id = "i" + std::to_string(i); s.update(i, d); m[i] = d; }
    std::vector<MetadataValue> pool;
    for (auto &[id, d] : m) for (auto &[k, v] : d.metadata) pool.push_back(v);
    for (int k = 0; k < 40; ++k) {
      MetadataFilter f;
      FilterCondition c;
      c.field = fields[r.below(3)];
      static const FilterOp ops[] = {FilterOp::EQ, FilterOp::GE, FilterOp::LE, FilterOp::GT, FilterOp::LT};
      c.op = ops[r.below(5)];
      c.value = pool[r.below(pool.size())];
      f.conditions.push_back(c);
      std::set<uint32_t> want, got;
      for (auto &[id, d] : m) if (ref(f, d.metadata)) want.insert(id);
      MetadataFilterExecutor<uint32_t> ex(f, &s, n);
      for (auto &[id, d] : m) if (ex.match(id)) got.insert(id);
      VF_CHECK(got == want, "filter:shared-index", "fields a, a_b, a_s all indexed; filter ", show(f), " selects ", got.size(), " want ", want.size());
      vf::eval();
    }
  });
}

// ---------------------------------------------------------------- S03
struct Exact {  // heap copy of exactly n bytes: any read beyond is visible to the sanitizer
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(const std::vector<char> &v, size_t len) : p(new char[len ? len : 1]), n(len) { if (len) memcpy(p.get(), v.data(), len); }
};
static void probe(const std::vector<char> &v, size_t len, const std::unordered_set<std::string> &req) {
  Exact e(v, len);
  try { (void)ScalarData::deserialize(e.p.get(), e.n); vf::count("decoded"); } catch (const std::runtime_error &) { vf::count("refused"); }
  (void)ScalarData::deserialize_selected_metadata(e.p.get(), e.n, req);
  (void)ScalarData::deserialize_single_metadata_value(e.p.get(), e.n, *req.begin());
}
static void encodings() {
  vf::cases("scalar-bytes", vf::tiered(1500, 30000), [](uint64_t, Rng &r) {
    auto d = rnd_data(r, r.next(), kFields);
    if (d.document.size() > 600) d.document.resize(600);
    auto raw = d.serialize();
    VF_CHECK(d.serialized_size() == raw.size(), "scalar:size", "serialized_size ", d.serialized_size(), " actual ", raw.size());
    {
      Exact e(raw, raw.size());
      auto x = ScalarData::deserialize(e.p.get(), e.n);
      VF_CHECK(deq(x, d), "scalar:roundtrip", "record does not round-trip");
      std::unordered_set<std::string> req;
      for (auto &f : kFields) if (r.chance(0.4)) req.insert(f);
      req.insert("absent");
      auto sel = ScalarData::deserialize_selected_metadata(e.p.get(), e.n, req);
      size_t want = 0;
      for (auto &f : req) {
        auto it = d.metadata.find(f);
        want += it != d.metadata.end();
        if (it != d.metadata.end()) VF_CHECK(sel.count(f) && veq(sel[f], it->second), "scalar:selected", "selected field ", f);
        auto one = ScalarData::deserialize_single_metadata_value(e.p.get(), e.n, f);
        VF_CHECK(one.has_value() == (it != d.metadata.end()) && (!one || veq(*one, it->second)), "scalar:single", "single field ", f);
      }
      VF_CHECK(sel.size() == want, "scalar:selected", "selected ", sel.size(), " want ", want);
    }
    std::unordered_set<std::string> req = {"a", "cat", "zz"};
    for (size_t c = 0; c < raw.size(); c += 1 + (raw.size() > 200 ? r.below(9) : 0)) {
      Exact e(raw, c);
      bool threw = false;
      try { (void)ScalarData::deserialize(e.p.get(), e.n); } catch (const std::runtime_error &) { threw = true; }
      VF_CHECK(threw, "scalar:truncated", "record truncated to ", c, " of ", raw.size(), " bytes was decoded");
      (void)ScalarData::deserialize_selected_metadata(e.p.get(), e.n, req);
      (void)ScalarData::deserialize_single_metadata_value(e.p.get(), e.n, "cat");
      vf::count("truncations");
    }
    for (int k = 0; k < 25; ++k) {
      auto b = raw;
      for (uint64_t i = 0; i < 1 + r.below(4); ++i) {
        size_t at = r.below(b.size());
        if (r.chance(0.3) && at + 4 <= b.size()) { uint32_t v = r.chance(0.5) ? 0xffffffffu : static_cast<uint32_t>(b.size() - at); memcpy(&b[at], &v, 4); }
        else b[at] = static_cast<char>(r.next());
      }
      probe(b, b.size(), req);
      vf::count("mutations");
    }
    vf::eval();
    vf::Hash h;
    h.add(raw.data(), raw.size());
    if (!d.metadata.empty()) vf::distinct(h.get());
  });
  vf::cases("scalar-noise", vf::tiered(3000, 60000), [](uint64_t, Rng &r) {
    std::vector<char> b(r.below(120));
    for (auto &c : b) c = r.chance(0.5) ? static_cast<char>(r.below(5)) : static_cast<char>(r.next());
    if (!b.empty()) probe(b, b.size(), {"a", ""});
    vf::eval();
  });
  vf::cases("index-order", vf::tiered(60000, 1000000), [](uint64_t, Rng &r) {
    int64_t a = r.chance(0.5) ? rnd_int(r) : static_cast<int64_t>(r.next()), b = r.chance(0.5) ? rnd_int(r) : static_cast<int64_t>(r.next());
    auto ea = index_encoding::encode_int64(a), eb = index_encoding::encode_int64(b);
    VF_CHECK((a < b) == (ea < eb) && (a == b) == (ea == eb), "index:int-order", a, " ", b);
    VF_CHECK(index_encoding::decode_int64(ea) == a, "index:int-roundtrip", a);
    double x, y;
    uint64_t bx = r.next(), by = r.next();
    memcpy(&x, &bx, 8);
    memcpy(&y, &by, 8);
    if (r.chance(0.5)) x = rnd_double(r);
    if (r.chance(0.5)) y = rnd_double(r);
    if (std::isnan(x)) x = 1;
    if (std::isnan(y)) y = 2;
    auto dx = index_encoding::encode_double(x), dy = index_encoding::encode_double(y);
    if (x != y) VF_CHECK((x < y) == (dx < dy) && dx != dy, "index:double-order", x, " ", y);
    double back = index_encoding::decode_double(dx);
    VF_CHECK(memcmp(&back, &x, 8) == 0, "index:double-roundtrip", x);
    MetadataValue v = rnd_value(r), w = rnd_value(r);
    VF_CHECK((index_encoding::encode_value(v) == index_encoding::encode_value(w)) == veq(v, w), "index:value-injective", show(v), " ", show(w));
    if (v.index() == 2 && w.index() == 2) VF_CHECK((std::get<std::string>(v) < std::get<std::string>(w)) == (index_encoding::encode_value(v) < index_encoding::encode_value(w)), "index:string-order", show(v), " ", show(w));
    uint32_t id = static_cast<uint32_t>(r.next());
    auto key = index_encoding::make_field_index_key("f_x", index_encoding::encode_value(v), id);
    VF_CHECK(index_encoding::extract_id_from_key<uint32_t>(key) == id, "index:id", "id from key");
    VF_CHECK(key.starts_with(index_encoding::make_field_index_prefix("f_x", index_encoding::encode_value(v))) && key.starts_with(index_encoding::make_field_prefix("f_x")), "index:prefix", "prefix");
    vf::eval();
    vf::Hash h;
    h.add(a).add(b).add(bx).add(by);
    vf::distinct(h.get());
  });
  vf::cases("binary-io", vf::tiered(4000, 80000), [](uint64_t, Rng &r) {
    binary_io::BinaryWriter w;
    struct F { int k; uint64_t v; std::string s; };
    std::vector<F> f;
    for (uint64_t i = 0; i < r.below(8); ++i) {
      F x{static_cast<int>(r.below(6)), r.next() >> r.below(64), rnd_str(r)};
      switch (x.k) {
        case 0: w.write_u8(static_cast<uint8_t>(x.v)); break;
        case 1: w.write_u32(static_cast<uint32_t>(x.v)); break;
        case 2: w.write_u64(x.v); break;
        case 3: w.write_string(x.s); break;
        case 4: w.write_blob(std::vector<char>(x.s.begin(), x.s.end())); break;
        default: { std::vector<uint32_t> v(x.s.size() % 7, static_cast<uint32_t>(x.v)); w.write_vector_blob(v.data(), v.size()); }
      }
      f.push_back(x);
    }
    auto raw = std::move(w).finish();
    auto read = [&](const char *p, size_t n, bool strict) {
      binary_io::BinaryReader rd(p, n);
      for (auto &x : f) {
        bool ok = true, has = true;
        switch (x.k) {
          case 0: { auto v = rd.read_u8(); has = v.has_value(); ok = has && *v == static_cast<uint8_t>(x.v); break; }
          case 1: { auto v = rd.read_u32(); has = v.has_value(); ok = has && *v == static_cast<uint32_t>(x.v); break; }
          case 2: { auto v = rd.read_u64(); has = v.has_value(); ok = has && *v == x.v; break; }
          case 3: { auto v = rd.read_string(); has = v.has_value(); ok = has && *v == x.s; break; }
          case 4: { auto v = rd.read_blob(); has = v.has_value(); ok = has && std::string(v->begin(), v->end()) == x.s; break; }
          default: { auto v = rd.read_blob(); has = v.has_value(); ok = has && v->size() == (x.s.size() % 7) * 4; }
        }
        if (strict) VF_CHECK(ok, "binary:roundtrip", "field kind ", x.k);
        else if (has) VF_CHECK(ok, "binary:truncated-value", "truncated payload produced a wrong value, kind ", x.k);
        if (!has) return;
      }
      if (strict) VF_CHECK(rd.remaining() == 0, "binary:remaining", "bytes left");
    };
    { Exact e(raw, raw.size()); read(e.p.get(), e.n, true); }
    for (size_t c = 0; c < raw.size(); c += 1 + r.below(5)) { Exact e(raw, c); read(e.p.get(), e.n, false); vf::count("truncations"); }
    for (int k = 0; k < 10 && !raw.empty(); ++k) {
      auto b = raw;
      b[r.below(b.size())] = static_cast<char>(r.next());
      if (b.size() >= 8 && r.chance(0.5)) { uint64_t v = ~0ULL - r.below(9); memcpy(&b[r.below(b.size() - 7)], &v, 8); }
      Exact e(b, b.size());
      binary_io::BinaryReader rd(e.p.get(), e.n);
      for (int z = 0; z < 12; ++z) { if (z % 3 == 0) (void)rd.read_string(); else if (z % 3 == 1) (void)rd.read_blob(); else (void)rd.read_fixed_blob(r.below(3) ? r.below(20) : ~0ULL - r.below(4)); }
      VF_CHECK(rd.remaining() <= b.size(), "binary:remaining", "reader ran past its input");
      vf::count("mutations");
    }
    vf::eval();
  });
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  auto &m = vf::ctx().mode;
  if (m == "store") store();
  else if (m == "conc") store_conc();
  else if (m == "filter") filters();
  else if (m == "enc") encodings();
  return vf::finish();
}
