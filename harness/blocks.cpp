// N04 DiskANN building blocks against their models; N05 product quantization against exact arithmetic.
#include <thread>
#include "vf.hpp"
#include "index/graph/diskann/disk_layout.hpp"
#include "index/graph/diskann/disk_page_io.hpp"
#include "index/graph/diskann/node_cache.hpp"
#include "index/graph/diskann/pq_table.hpp"
#include "index/graph/diskann/search_scratch.hpp"
#include "index/graph/diskann/slot_allocator.hpp"
#include "index/graph/diskann/tombstone_bitmap.hpp"
#include "index/graph/diskann/visited_bitset.hpp"
#include "storage/io/uring_reactor.hpp"

using namespace vf;
using namespace alaya::diskann;
using Vec = std::vector<float>;
using Ids = std::vector<uint32_t>;
static bool g_uring = false;

// ---------------------------------------------------------------- slot allocator
static void slots(uint64_t, Rng &r) {
  eval();
  Hash h;
  uint32_t n0 = static_cast<uint32_t>(r.chance(0.3) ? r.below(4) : r.chance(0.3) ? 65536 - 3 + r.below(7) : r.below(300));
  auto a = std::make_unique<SlotAllocator>(n0);
  std::set<uint32_t> live, freed, pending;
  uint32_t high = n0;
  for (uint32_t i = 0; i < n0; ++i) live.insert(i);
  bool burst = false;
  auto some = [&](std::set<uint32_t> &s) { auto it = s.lower_bound(static_cast<uint32_t>(r.below(high + 1))); return it == s.end() ? *s.begin() : *it; };
  int steps = static_cast<int>(r.range(50, 400));
  for (int i = 0; i < steps; ++i) {
    if (r.chance(0.05)) burst = !burst;
    double p = r.unit();
    if (p < (burst ? 0.55 : 0.3)) {
      uint32_t id = a->alloc();
      h.add(id);
      count("allocs");
      VF_CHECK(!live.count(id) && !pending.count(id), "slot:live-handed-out", "alloc returned slot ", id, " which is in use");
      if (!freed.empty()) {
        VF_CHECK(freed.count(id), "slot:no-reuse", "alloc returned ", id, " although ", freed.size(), " freed slots wait for reuse");
        count("reuses");
      } else VF_CHECK(id == high, "slot:fresh-id", "fresh slot ", id, " expected ", high);
      freed.erase(id);
      high = std::max(high, id + 1);
      pending.insert(id);
      VF_CHECK(a->is_deleted(id), "slot:visible-early", "slot ", id, " is visible before it was published");
    } else if (p < 0.6) {
      if (pending.empty()) continue;
      uint32_t id = some(pending);
      a->publish(id), pending.erase(id), live.insert(id);
    } else if (p < 0.9) {
      auto &from = !pending.empty() && r.chance(0.2) ? pending : live;
      if (from.empty()) continue;
      uint32_t id = some(from);
      a->free(id), from.erase(id), freed.insert(id), count("frees");
    } else if (p < 0.94) {
      Tmp t("slot");
      a->save(t.s("s"));
      a = std::make_unique<SlotAllocator>(static_cast<uint32_t>(r.below(100)));
      if (r.chance(0.5)) { a->free(0); a->alloc(); }
      a->load(t.s("s"));
      count("reopens");
    } else if (p < 0.943) {
      uint32_t n = static_cast<uint32_t>(r.below(300));
      a->reset(n), live.clear(), freed.clear(), pending.clear(), high = n;
      for (uint32_t k = 0; k < n; ++k) live.insert(k);
    }
    VF_CHECK(a->next_fresh_id() == high, "slot:next", "next_fresh_id ", a->next_fresh_id(), " expected ", high);
    VF_CHECK(a->free_count() == freed.size(), "slot:free-count", "free_count ", a->free_count(), " expected ", freed.size());
    VF_CHECK(a->tombstone_count() == freed.size() + pending.size(), "slot:tombstones", "tombstone_count ", a->tombstone_count(), " expected ",
             freed.size() + pending.size());
    if (i % 16 == 0 || i + 1 == steps)
      for (uint32_t k = 0; k < high; ++k)
        VF_CHECK(a->is_deleted(k) == !live.count(k), "slot:liveness", "slot ", k, " is_deleted=", a->is_deleted(k), " model live=", live.count(k));
  }
  distinct(h.get());
}

// ---------------------------------------------------------------- bit maps
static void bits(uint64_t c, Rng &r) {
  eval();
  Hash h;
  {
    uint64_t init = r.chance(0.3) ? 0 : r.chance(0.5) ? r.below(1000) : 65536 * r.below(4) + r.below(3);
    auto b = std::make_unique<TombstoneBitmap>(init);
    std::set<uint64_t> m;
    uint64_t cap = init;
    uint64_t span = c % 7 == 0 ? (1ull << 22) : c % 3 == 0 ? 200000 : 700;
    auto pick = [&] {
      uint64_t e = r.below(8);
      if (e == 0) return 65536 * r.below(span / 65536 + 1) + r.below(2);
      if (e == 1) return 65536 * (1 + r.below(span / 65536 + 1)) - 1;
      if (e == 2) return 64 * r.below(span / 64) + 63 * r.below(2);
      return r.below(span);
    };
    auto compare = [&](const char *when) {
      VF_CHECK(b->count() == m.size(), "bitmap:count", when, ": count ", b->count(), " expected ", m.size());
      VF_CHECK(b->capacity() >= cap, "bitmap:capacity", when, ": capacity ", b->capacity(), " below ", cap);
      std::vector<uint64_t> probe(m.begin(), m.end());
      for (int i = 0; i < 200; ++i) probe.push_back(pick());
      for (uint64_t x : std::vector<uint64_t>(probe)) { probe.push_back(x + 1); if (x) probe.push_back(x - 1); }
      probe.push_back(1ull << 33), probe.push_back(~0ull), probe.push_back(~0u);
      TombstoneSnapshot s;
      if (r.chance(0.5)) s.reset(r.below(50));
      b->snapshot_into(s);
      for (uint64_t x : probe) {
        VF_CHECK(b->is_deleted(x) == (m.count(x) > 0), "bitmap:member", when, ": bit ", x, " is ", b->is_deleted(x), " model ", m.count(x));
        VF_CHECK(s.is_deleted(x) == (m.count(x) > 0), "bitmap:snapshot", when, ": snapshot bit ", x, " is ", s.is_deleted(x), " model ", m.count(x));
      }
      count("bitmap_probes", probe.size());
      return s;
    };
    int steps = static_cast<int>(r.range(20, 300));
    for (int i = 0; i < steps; ++i) {
      double p = r.unit();
      uint64_t x = !m.empty() && r.chance(0.3) ? *m.begin() : pick();
      if (!m.empty() && r.chance(0.3)) { auto it = m.lower_bound(pick()); if (it != m.end()) x = *it; }
      h.add(x);
      if (p < 0.55) b->set(x), m.insert(x), cap = std::max(cap, x + 1);
      else if (p < 0.9) b->clear(x), m.erase(x);
      else if (p < 0.93) {
        Tmp t("bm");
        b->save(t.s("b"));
        b = std::make_unique<TombstoneBitmap>(r.below(400000));
        if (r.chance(0.5)) b->set(r.below(400000));
        b->load(t.s("b"));
        count("reopens");
        compare("after load");
      } else if (p < 0.94) { cap = r.below(300000); b->reset(cap), m.clear(); compare("after reset"); }
      else if (p < 0.97) {
        auto s = compare("during");
        std::set<uint64_t> old = m;  // a snapshot does not follow later changes
        for (int k = 0; k < 5; ++k) { uint64_t y = pick(); if (r.chance(0.5)) b->set(y), m.insert(y), cap = std::max(cap, y + 1); else b->clear(y), m.erase(y); }
        for (int k = 0; k < 100; ++k) { uint64_t y = pick(); VF_CHECK(s.is_deleted(y) == (old.count(y) > 0), "bitmap:snapshot-moves", "snapshot bit ", y, " changed"); }
        for (uint64_t y : old) VF_CHECK(s.is_deleted(y), "bitmap:snapshot-moves", "snapshot lost bit ", y);
      }
    }
    compare("at the end");
    // beyond the addressable range: refused, and nothing changes
    bool threw = false;
    try { b->set(1ull << 40); } catch (const std::out_of_range &) { threw = true; }
    VF_CHECK(threw && b->count() == m.size(), "bitmap:range", "set beyond the range was accepted");
  }
  {
    uint64_t n = r.chance(0.3) ? 64 * r.below(5) + r.below(2) : r.below(3000);
    VisitedBitset v;
    v.resize(n);
    std::set<uint32_t> m;
    for (int round = 0; round < 30; ++round) {
      if (r.chance(0.1)) { n += r.below(200), v.resize(n); m.clear(); v.clear(); }
      int ops = static_cast<int>(r.below(60));
      for (int i = 0; i < ops && n; ++i) {
        uint32_t x = static_cast<uint32_t>(r.chance(0.2) ? n - 1 : r.below(n));
        if (r.chance(0.5)) {
          bool fresh = v.test_and_set(x);
          VF_CHECK(fresh == !m.count(x), "visited:test-and-set", "bit ", x, " newly set=", fresh, " model had it=", m.count(x));
        } else v.set(x);
        m.insert(x);
      }
      for (uint32_t x = 0; x < n; ++x) VF_CHECK(v.test(x) == (m.count(x) > 0), "visited:member", "bit ", x, " of ", n, " is ", v.test(x));
      bool threw = false;
      try { (void)v.test(static_cast<uint32_t>(n)); } catch (const std::out_of_range &) { threw = true; }
      VF_CHECK(threw, "visited:range", "test at size was accepted");
      threw = false;
      try { (void)v.test_and_set(static_cast<uint32_t>(n)); } catch (const std::out_of_range &) { threw = true; }
      VF_CHECK(threw, "visited:range", "test_and_set at size was accepted");
      if (r.chance(0.7)) v.clear(), m.clear();
    }
    h.add(n);
  }
  // per-query scratch: exact distances and neighbour lists of the query at hand only
  {
    ThreadData td;
    ThreadDataScratchConfig cfg;
    cfg.n_page_slots = 1 + r.below(6), cfg.page_size = kSectorLen, cfg.max_slot_id = 1 + r.below(300);
    cfg.max_degree = static_cast<uint32_t>(1 + r.below(20)), cfg.search_list_size = static_cast<uint32_t>(1 + r.below(40));
    cfg.query_dim = 8;
    td.alloc_scratch(cfg);
    for (int q = 0; q < 12; ++q) {
      td.reset_query(cfg.search_list_size);
      std::map<uint32_t, float> ex;
      std::map<uint32_t, Ids> nb;
      if (r.chance(0.2)) { cfg.max_slot_id += r.below(100), td.resize_slot_capacity(cfg.max_slot_id); }
      for (int i = 0; i < 60; ++i) {
        uint32_t id = static_cast<uint32_t>(r.below(cfg.max_slot_id));
        if (r.chance(0.4)) { float d = static_cast<float>(r.unit()); td.set_exact_dist(id, d), ex[id] = d; }
        else if (r.chance(0.6)) {
          if (nb.count(id)) { td.release_cached_neighbors(id), nb.erase(id); continue; }
          size_t used = 0;
          for (auto &e : nb) used += !e.second.empty();
          if (used >= cfg.search_list_size) continue;
          Ids l(r.below(cfg.max_degree + 1));
          for (auto &x : l) x = static_cast<uint32_t>(r.next());
          td.cache_neighbors(id, l.data(), static_cast<uint32_t>(l.size()));
          nb[id] = l;
        }
      }
      for (uint32_t id = 0; id < cfg.max_slot_id; ++id) {
        float d = td.exact_dist(id);
        bool miss = ThreadData::is_missing_exact(d);
        VF_CHECK(miss == !ex.count(id) && (miss || d == ex[id]), "scratch:exact", "distance of ", id, " missing=", miss, " model ", ex.count(id));
        auto v = td.cached_neighbors(id);
        VF_CHECK(Ids(v.begin(), v.end()) == (nb.count(id) ? nb[id] : Ids{}), "scratch:neighbours", "cached neighbours of ", id, " differ");
      }
      count("scratch_queries");
    }
    td.free_scratch();
  }
  distinct(h.get());
}

// ---------------------------------------------------------------- records on pages
struct Rec {
  Vec v;
  Ids nb;
  bool operator==(const Rec &) const = default;
};
struct Shape {
  uint64_t n, dim;
  uint32_t deg;
};
static Shape shape(Rng &r) {
  static const uint64_t dims[] = {1, 2, 3, 4, 7, 8, 16, 31, 64, 100, 128, 250, 500, 960, 1000, 1020, 1023, 1024, 1030, 1536, 2050};
  Shape s;
  s.dim = dims[r.below(std::size(dims))];
  s.deg = static_cast<uint32_t>(r.chance(0.15) ? r.below(3) : r.range(1, 64));
  if (r.chance(0.15)) s.deg = static_cast<uint32_t>((4096 - 4 - 4 * std::min<uint64_t>(s.dim, 900)) / 4 + r.below(3));  // record near a page
  s.n = r.chance(0.2) ? 1 + r.below(4) : r.range(5, s.dim > 900 ? 60 : 250);
  return s;
}
static float val(Rng &r) { return static_cast<float>(r.range(-100000, 100000)) / 64.0F; }
static Rec record(Rng &r, const Shape &s) {
  Rec x;
  x.v.resize(s.dim);
  for (auto &e : x.v) e = val(r);
  x.nb.resize(r.chance(0.2) ? s.deg : r.below(s.deg + 1));
  for (auto &e : x.nb) e = static_cast<uint32_t>(r.below(s.n));
  return x;
}
static Rec decode(const std::vector<char> &f, uint64_t off, const Shape &s) {
  Rec x;
  uint32_t nn = ~0u;
  if (off + s.dim * 4 + 4 > f.size()) return x;
  x.v.resize(s.dim);
  std::memcpy(x.v.data(), f.data() + off, s.dim * 4);
  std::memcpy(&nn, f.data() + off + s.dim * 4, 4);
  if (nn > s.deg || off + s.dim * 4 + 4 + 4ull * nn > f.size()) return x;
  x.nb.resize(nn);
  if (nn) std::memcpy(x.nb.data(), f.data() + off + s.dim * 4 + 4, 4ull * nn);
  return x;
}
static std::string desc(const Shape &s) { return cat("n=", s.n, " dim=", s.dim, " degree=", s.deg); }
// The documented layout: sector 0 is the header, pages follow, a record never crosses a page, no two records overlap.
static void geometry(Rng &r, const Shape &s) {
  auto g = DiskLayoutGeometry::compute(s.dim, s.deg);
  VF_CHECK(g.node_len >= s.dim * 4 + 4 + 4ull * s.deg, "layout:node-len", desc(s), " node_len ", g.node_len);
  VF_CHECK(g.page_size % kSectorLen == 0 && g.nodes_per_sector >= 1, "layout:page", desc(s), " page_size ", g.page_size);
  uint64_t prev = kSectorLen;
  uint64_t n = 1 + r.below(2000);
  for (uint64_t i = 0; i < n; ++i) {
    uint64_t o = g.file_offset(i), p = g.get_page_offset(i);
    VF_CHECK(o >= prev, "layout:overlap", desc(s), " node ", i, " at ", o, " overlaps its predecessor ending at ", prev);
    VF_CHECK(p % kSectorLen == 0 && o >= p && o + g.node_len <= p + g.page_size, "layout:crosses", desc(s), " node ", i, " leaves its page");
    VF_CHECK(o == p + g.offset_to_node(i), "layout:offset", desc(s), " node ", i, " offset ", o);
    prev = o + g.node_len;
  }
  // the same far out: files of hundreds of gigabytes are laid out by the same rule
  const uint64_t end_n = prev;
  for (int k = 0; k < 40; ++k) {
    const uint64_t at = 1 + r.below(r.chance(0.5) ? 0xfffffff0ull : 60000000ull);
    prev = g.file_offset(at - 1) + g.node_len;
    const uint64_t first = g.get_page_offset(0);
    for (uint64_t i = at; i < at + 3; ++i) {
      uint64_t o = g.file_offset(i), p = g.get_page_offset(i);
      VF_CHECK(o >= prev, "layout:overlap", desc(s), " node ", i, " at ", o, " overlaps its predecessor ending at ", prev);
      VF_CHECK(p == first + i / g.nodes_per_sector * g.page_size, "layout:far-page", desc(s), " the page of node ", i, " is at ", p);
      VF_CHECK(o == p + g.offset_to_node(i) && o + g.node_len <= p + g.page_size, "layout:crosses", desc(s), " node ", i, " leaves its page");
      prev = o + g.node_len;
    }
    VF_CHECK(g.total_file_size(at) >= g.file_offset(at - 1) + g.node_len, "layout:file-size", desc(s), " size for ", at, " nodes is ", g.total_file_size(at));
    count("far_nodes");
  }
  prev = end_n;
  VF_CHECK(g.total_file_size(n) >= prev && g.total_file_size(n) - prev < g.page_size + kSectorLen, "layout:file-size", desc(s), " size for ", n, " is ",
           g.total_file_size(n), ", last record ends at ", prev);
}
static void cache_model(Rng &r, const Shape &s, const std::vector<std::vector<uint32_t>> &graph, const Vec &flat, const std::vector<Rec> &base) {
  uint32_t medoid = static_cast<uint32_t>(r.below(s.n));
  double ratio = r.chance(0.2) ? 0 : r.chance(0.2) ? 1.0 : r.unit() * 1.2;
  auto c = std::make_unique<NodeCache>();
  c->generate(graph, flat.data(), medoid, s.n, s.dim, s.deg, ratio);
  // reachable nodes by breadth, for the size and closeness of what is cached
  std::vector<int> lvl(s.n, -1);
  Ids q{medoid};
  lvl[medoid] = 0;
  for (size_t i = 0; i < q.size(); ++i)
    for (uint32_t w : graph[q[i]]) if (lvl[w] < 0) lvl[w] = lvl[q[i]] + 1, q.push_back(w);
  uint64_t want = ratio <= 0 ? 0 : std::min<uint64_t>(s.n, static_cast<uint64_t>(std::ceil(ratio * static_cast<double>(s.n))));
  want = std::min<uint64_t>(want, q.size());
  VF_CHECK(c->size() == want, "ncache:size", desc(s), " ratio ", ratio, " caches ", c->size(), " nodes, expected ", want);
  std::map<uint32_t, Rec> m;
  int deepest = -1;
  for (uint32_t id : c->ids()) {
    VF_CHECK(id < s.n && !m.count(id), "ncache:ids", desc(s), " cached id ", id, " invalid or repeated");
    if (id >= s.n) return;
    m[id] = base[id], deepest = std::max(deepest, lvl[id]);
    VF_CHECK(lvl[id] >= 0, "ncache:unreachable", "cached node ", id, " is not reachable from the entry point");
  }
  for (uint32_t i = 0; i < s.n && want; ++i)
    VF_CHECK(m.count(i) || lvl[i] < 0 || lvl[i] >= deepest, "ncache:closest", "node ", i, " at hop ", lvl[i], " not cached while hop ", deepest, " is");
  auto compare = [&](const char *when) {
    VF_CHECK(c->size() == m.size(), "ncache:count", when, ": size ", c->size(), " expected ", m.size());
    for (uint32_t i = 0; i < s.n + 20; ++i) {
      const char *rec = c->lookup(i);
      VF_CHECK((rec != nullptr) == (m.count(i) > 0), "ncache:presence", when, ": node ", i, " cached=", rec != nullptr, " model ", m.count(i));
      if (!rec || !m.count(i)) continue;
      std::vector<char> raw(rec, rec + c->node_len());
      VF_CHECK(decode(raw, 0, s) == m[i], "ncache:content", when, ": record of node ", i, " differs from the last written one");
      count("cache_lookups");
    }
  };
  compare("generated");
  std::set<uint32_t> basic;
  for (auto &e : m) basic.insert(e.first);
  for (int i = 0; i < 40; ++i) {
    double p = r.unit();
    uint32_t id = static_cast<uint32_t>(r.below(s.n + 20));
    Rec x = record(r, s);
    if (p < 0.4) c->upsert_node(id, x.v.data(), static_cast<uint32_t>(x.nb.size()), x.nb.data()), m[id] = x;
    else if (p < 0.8) {
      if (!m.empty() && r.chance(0.6)) { auto it = m.lower_bound(id); id = it == m.end() ? m.begin()->first : it->first; }
      c->update_neighbors(id, static_cast<uint32_t>(x.nb.size()), x.nb.data());
      if (m.count(id)) m[id].nb = x.nb;
    } else if (p < 0.88) {
      Tmp t("nc");
      c->save(t.s("i"), t.s("n"));
      c = std::make_unique<NodeCache>();
      c->load(t.s("i"), t.s("n"));
      c->configure_geometry(s.dim, s.deg);
      basic.clear();
      for (auto &e : m) basic.insert(e.first);
      count("reopens");
      compare("after load");
    } else if (p < 0.92) {
      c->drop_disk_backed_overrides();
      std::erase_if(m, [&](auto &e) { return !basic.count(e.first); });
    } else {
      Ids big(s.deg + 1, 0);
      int refused = 0;
      try { c->upsert_node(id, x.v.data(), s.deg + 1, big.data()); } catch (const std::exception &) { ++refused; }
      try { c->update_neighbors(id, s.deg + 1, big.data()); } catch (const std::exception &) { ++refused; }
      VF_CHECK(refused == 2, "ncache:degree", "a neighbour list above the degree bound was accepted");
    }
  }
  compare("after updates");
}
static void layout(uint64_t, Rng &r) {
  eval();
  Shape s = shape(r);
  geometry(r, s);
  Tmp t("lay");
  std::vector<Rec> m(s.n);
  std::vector<std::vector<uint32_t>> graph(s.n);
  Vec flat;
  for (uint64_t i = 0; i < s.n; ++i) {
    m[i] = record(r, s), graph[i] = m[i].nb;
    flat.insert(flat.end(), m[i].v.begin(), m[i].v.end());
  }
  uint32_t medoid = static_cast<uint32_t>(r.below(s.n));
  write_disk_layout(t.s("x"), flat.data(), graph, {s.n, s.dim, s.deg, medoid});
  auto hd = read_disk_layout_header(t.s("x"));
  VF_CHECK(hd.num_points == s.n && hd.dim == s.dim && hd.medoid == medoid && hd.max_degree == s.deg, "layout:header", desc(s), " header reads n=",
           hd.num_points, " dim=", hd.dim, " medoid=", hd.medoid, " degree=", hd.max_degree);
  auto g = DiskLayoutGeometry::compute(s.dim, s.deg);
  auto raw = slurp(t.s("x"));
  VF_CHECK(raw.size() == g.total_file_size(s.n), "layout:size", desc(s), " file has ", raw.size(), " bytes, expected ", g.total_file_size(s.n));
  for (uint64_t i = 0; i < s.n; ++i) VF_CHECK(decode(raw, g.file_offset(i), s) == m[i], "layout:record", desc(s), " record ", i, " differs");
  cache_model(r, s, graph, flat, m);
  Hash h;
  h.add(s.n).add(s.dim).add(s.deg);

  // page I/O against the model: a write is what every later read returns, on every path, and after a flush it is on disk
  size_t pages = 1 + (s.n - 1) / g.nodes_per_sector;
  size_t cap = r.chance(0.25) ? 0 : r.chance(0.4) ? r.range(1, 3) : r.range(1, static_cast<int64_t>(pages + 70));
  auto io = std::make_unique<DiskPageIO>(t.s("x"), g, cap);
  std::unique_ptr<alaya::UringReactor> reactor;
  if (g_uring && r.chance(0.5)) reactor = std::make_unique<alaya::UringReactor>(), io->set_reactor(reactor.get()), count("reactor_cases");
  coro::thread_pool pool{{.thread_count = static_cast<uint32_t>(r.range(1, 4)), .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr}};
  auto ids_of = [&](size_t k) { Ids v(k); for (auto &x : v) x = static_cast<uint32_t>(r.below(m.size())); return v; };
  auto same = [&](const char *path, const DiskPageIO::NodeData &got, uint32_t id) {
    count("page_reads");
    VF_CHECK(got.coords == m[id].v, "pageio:coords", path, ": vector of node ", id, " is not the one written last (", desc(s), " cache ", cap, ")");
    VF_CHECK(got.nbrs == m[id].nb, "pageio:neighbours", path, ": neighbours of node ", id, " are not those written last (", desc(s), " cache ", cap, ")");
  };
  int steps = static_cast<int>(r.range(30, 120));
  std::vector<char> page(g.page_size);
  void *ap = nullptr;
  if (posix_memalign(&ap, 4096, g.page_size)) return;
  std::unique_ptr<char, void (*)(void *)> apage(static_cast<char *>(ap), free);
  for (int i = 0; i < steps; ++i) {
    double p = r.unit();
    uint32_t id = static_cast<uint32_t>(r.chance(0.3) ? m.size() - 1 - r.below(std::min<uint64_t>(m.size(), 3)) : r.below(m.size()));
    h.add(static_cast<uint32_t>(p * 100)).add(id);
    if (p < 0.18) {
      Rec x = record(r, s);
      io->write_node(id, x.v.data(), static_cast<uint32_t>(x.nb.size()), x.nb.data()), m[id] = x, count("page_writes");
    } else if (p < 0.34) {
      Rec x = record(r, s);
      io->write_node_neighbors(id, static_cast<uint32_t>(x.nb.size()), x.nb.data()), m[id].nb = x.nb, count("page_writes");
    } else if (p < 0.44) {  // append the next slot
      Rec x = record(r, s);
      uint32_t nid = static_cast<uint32_t>(m.size());
      io->write_node(nid, x.v.data(), static_cast<uint32_t>(x.nb.size()), x.nb.data()), m.push_back(x), count("appends");
      VF_CHECK(io->file_size() >= g.total_file_size(m.size()), "pageio:extend", "file of ", io->file_size(), " bytes cannot hold ", m.size(), " records");
    } else if (p < 0.52) same("read_node", io->read_node(id), id);
    else if (p < 0.58) same("read_node_async", coro::sync_wait(io->read_node_async(id, pool)), id);
    else if (p < 0.64) {
      auto v = ids_of(r.below(12));
      auto got = r.chance(0.5) ? io->read_nodes_async(v, static_cast<uint32_t>(r.range(1, 3))) : io->read_nodes_async(v, pool);
      VF_CHECK(got.size() == v.size(), "pageio:batch-size", "batch of ", v.size(), " returned ", got.size());
      for (size_t k = 0; k < got.size() && k < v.size(); ++k) same("read_nodes_async", got[k], v[k]);
    } else if (p < 0.74) {
      auto v = ids_of(1 + r.below(30));
      std::vector<Ids> got;
      int how = static_cast<int>(r.below(3));
      if (how == 0) got = io->read_neighbors_batch(v.data(), static_cast<uint32_t>(v.size()));
      else if (how == 1) got = io->read_neighbors_batch_parallel(v.data(), static_cast<uint32_t>(v.size()), static_cast<uint32_t>(r.range(1, 4)));
      else got = coro::sync_wait(io->read_neighbors_batch_async(v.data(), static_cast<uint32_t>(v.size()), pool));
      VF_CHECK(got.size() == v.size(), "pageio:batch-size", "batch of ", v.size(), " returned ", got.size());
      for (size_t k = 0; k < got.size() && k < v.size(); ++k)
        VF_CHECK(got[k] == m[v[k]].nb, "pageio:batch-neighbours", "way ", how, ": neighbours of node ", v[k], " are not those written last");
      count("batch_reads");
    } else if (p < 0.82) {
      if (r.chance(0.4)) {
        auto v = ids_of(1 + r.below(20));
        auto task = [&]() -> coro::task<> {
          co_await pool.schedule();
          if (v.size() % 2) co_await io->prefetch_coords(v.data(), v.size(), pool);
          else co_await io->prefetch_pages(v.data(), v.size(), pool);
        };
        coro::sync_wait(task());
        count("prefetches");
      }
      auto v = io->read_coords_cached(id);
      VF_CHECK(v == m[id].v, "pageio:coords-cache", "cached vector of node ", id, " is not the one written last");
      if (r.chance(0.2)) io->clear_cache();
    } else if (p < 0.9) {  // the search's view: peek, else read the device and fill
      uint64_t off = g.get_page_offset(id), ver = 0;
      if (!io->search_peek_page(off, apage.get(), &ver)) {
        auto f = slurp(t.s("x"));
        if (off + g.page_size > f.size()) continue;
        std::memcpy(apage.get(), f.data() + off, g.page_size);
        if (r.chance(0.5)) {  // a write gets in between
          Rec x = record(r, s);
          io->write_node(id, x.v.data(), static_cast<uint32_t>(x.nb.size()), x.nb.data()), m[id] = x;
          if (r.chance(0.5)) for (auto k : ids_of(8)) (void)io->read_node(k);
          count("raced_fills");
        }
        io->search_fill_page(off, apage.get(), ver);
      }
      std::vector<char> pg(apage.get(), apage.get() + g.page_size);
      VF_CHECK(decode(pg, g.offset_to_node(id), s) == m[id], "pageio:search-page", "the page given to a search holds an outdated record of node ", id, " (", desc(s),
               " cache ", cap, ")");
      count("search_pages");
    } else if (p < 0.95) {
      io->flush_dirty_pages();
      auto f = slurp(t.s("x"));
      for (uint32_t k = 0; k < m.size(); ++k)
        VF_CHECK(decode(f, g.file_offset(k), s) == m[k], "pageio:flush", "after a flush the file does not hold the last record of node ", k, " (", desc(s), " cache ", cap, ")");
      count("page_flushes");
    } else if (p < 0.97) {
      Ids big(s.deg + 1, 0);
      int refused = 0;
      try { io->write_node(id, m[id].v.data(), s.deg + 1, big.data()); } catch (const std::exception &) { ++refused; }
      try { io->write_node_neighbors(id, s.deg + 1, big.data()); } catch (const std::exception &) { ++refused; }
      VF_CHECK(refused == 2, "pageio:degree", "a neighbour list above the degree bound was accepted");
    } else {
      io->flush_dirty_pages();
      io->set_reactor(nullptr);
      io.reset();
      io = std::make_unique<DiskPageIO>(t.s("x"), g, cap);
      if (reactor) io->set_reactor(reactor.get());
      count("reopens");
    }
  }
  for (uint32_t k = 0; k < m.size(); ++k) same("final read", io->read_node(k), k);
  io->flush_dirty_pages();
  io.reset();
  auto f = slurp(t.s("x"));
  for (uint32_t k = 0; k < m.size(); ++k) VF_CHECK(decode(f, g.file_offset(k), s) == m[k], "pageio:final", "the closed file does not hold the last record of node ", k);
  if (r.chance(0.4)) {  // slots beyond the first 2 and 4 GiB of the (sparse) file
    std::map<uint32_t, Rec> far;
    auto check = [&](const char *when) {
      for (auto &[id, x] : far) {
        auto got = r.chance(0.5) ? io->read_node(id) : coro::sync_wait(io->read_node_async(id, pool));
        VF_CHECK(got.coords == x.v && got.nbrs == x.nb, "pageio:far", when, ": node ", id, " at offset ", g.file_offset(id), " is not what was written last (", desc(s), " cache ", cap, ")");
        auto nb = io->read_neighbors_batch(&id, 1);
        VF_CHECK(nb.size() == 1 && nb[0] == x.nb, "pageio:far", when, ": neighbours of node ", id, " at offset ", g.file_offset(id), " are not those written last");
        VF_CHECK(io->read_coords_cached(id) == x.v, "pageio:far", when, ": the cached vector of node ", id, " is not the one written last");
      }
      for (int k = 0; k < 10; ++k) { auto id = static_cast<uint32_t>(r.below(m.size())); same(when, io->read_node(id), id); }
    };
    io = std::make_unique<DiskPageIO>(t.s("x"), g, cap);
    if (reactor) io->set_reactor(reactor.get());
    for (int k = 0; k < 6; ++k) {
      const uint64_t base = (1ull << 31) * static_cast<uint64_t>(r.range(1, 5));
      const uint64_t id = base / g.page_size * g.nodes_per_sector + r.below(std::max<uint64_t>(1, g.nodes_per_sector) * 3);  // near its namesake when cut to 31 or 32 bits
      if (id > 0xfffffff0ull) continue;
      Rec x = record(r, s);
      io->write_node(static_cast<uint32_t>(id), x.v.data(), static_cast<uint32_t>(x.nb.size()), x.nb.data());
      if (r.chance(0.4)) x.nb = record(r, s).nb, io->write_node_neighbors(static_cast<uint32_t>(id), static_cast<uint32_t>(x.nb.size()), x.nb.data());
      far[static_cast<uint32_t>(id)] = x, count("far_writes");
      if (r.chance(0.3)) check("written far out");
    }
    check("written far out");
    io->flush_dirty_pages();
    io->clear_cache();
    check("flushed far out");
    io.reset();
    io = std::make_unique<DiskPageIO>(t.s("x"), g, cap);
    check("reopened with far slots");
    io.reset();
  }
  pool.shutdown();
  distinct(h.get());
}

// ---------------------------------------------------------------- concurrent use
// Every record carries its node and version in all of its words, so that a torn or mixed record shows.
static Rec stamped(uint32_t id, uint32_t ver, const Shape &s) {
  Rec x;
  x.v.assign(s.dim, static_cast<float>(id * 1000 + ver % 1000));
  x.nb.assign(s.deg ? 1 + (id + ver) % s.deg : 0, id * 1000 + ver % 1000);
  return x;
}
static void conc(uint64_t c, Rng &r) {
  eval();
  Hash h;
  uint64_t seen = 0;
  if (c % 3 == 0) {  // bitmap: writers own ids, readers see whatever was completed
    TombstoneBitmap b(r.below(3) * 1000);
    constexpr int W = 3;
    std::array<std::atomic<uint64_t>, W> done{}, begun{};
    std::atomic<bool> stop{false};
    uint64_t stride = 1 + r.below(3) * 977, n = tiered(6000, 20000);
    auto id = [&](int w, uint64_t k) { return (k * W + static_cast<uint64_t>(w)) * stride; };
    std::vector<std::thread> th;
    for (int w = 0; w < W; ++w)
      th.emplace_back([&, w] {
        for (uint64_t k = 0; k < n; ++k) {
          begun[w] = k + 1;
          b.set(id(w, k));
          done[w] = k + 1;
          if (k % 64 == 63) std::this_thread::yield();
        }
      });
    std::atomic<uint64_t> obs{0};
    for (int t = 0; t < 2; ++t)
      th.emplace_back([&, t] {
        Rng q(h.get() + static_cast<uint64_t>(t) + r.s);
        TombstoneSnapshot s;
        while (!stop) {
          std::array<uint64_t, W> lo, hi;
          for (int w = 0; w < W; ++w) lo[w] = done[w];
          bool snap = q.chance(0.3);
          if (snap) b.snapshot_into(s);
          for (int k = 0; k < 50; ++k) {
            int w = static_cast<int>(q.below(W));
            uint64_t x = lo[w] ? (q.chance(0.5) ? lo[w] - 1 : q.below(lo[w])) : 0;
            if (x < lo[w])
              VF_CHECK(snap ? s.is_deleted(id(w, x)) : b.is_deleted(id(w, x)), "bitmap-conc:lost", "bit ", id(w, x), " set before the read is clear (snapshot=", snap, ")");
            uint64_t y = x + q.below(50);
            bool on = snap ? s.is_deleted(id(w, y)) : b.is_deleted(id(w, y));
            hi[w] = begun[w];
            if (on) VF_CHECK(y < hi[w], "bitmap-conc:early", "bit ", id(w, y), " is set before anyone set it");
            ++obs;
          }
        }
      });
    for (int w = 0; w < W; ++w) th[static_cast<size_t>(w)].join();
    stop = true;
    for (size_t i = W; i < th.size(); ++i) th[i].join();
    VF_CHECK(b.count() == W * n, "bitmap-conc:count", "count ", b.count(), " expected ", W * n);
    count("bitmap_observations", obs), seen = obs;
  } else {
    Shape s{static_cast<uint64_t>(r.range(8, 80)), static_cast<uint64_t>(r.range(4, 300)), static_cast<uint32_t>(r.range(2, 24))};
    Tmp t("cc");
    Vec flat;
    std::vector<std::vector<uint32_t>> graph(s.n);
    for (uint32_t i = 0; i < s.n; ++i) {
      auto x = stamped(i, 0, s);
      flat.insert(flat.end(), x.v.begin(), x.v.end());
      graph[i] = x.nb;
    }
    bool use_io = c % 3 == 1;
    auto g = DiskLayoutGeometry::compute(s.dim, s.deg);
    std::unique_ptr<DiskPageIO> io;
    std::unique_ptr<alaya::UringReactor> reactor;
    NodeCache nc;
    size_t cap = r.chance(0.3) ? 0 : static_cast<size_t>(r.range(1, 12));
    write_disk_layout(t.s("x"), flat.data(), graph, {s.n, s.dim, s.deg, 0});
    coro::thread_pool pool{{.thread_count = 3, .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr}};
    if (use_io) {
      io = std::make_unique<DiskPageIO>(t.s("x"), g, cap);
      if (g_uring && r.chance(0.5)) reactor = std::make_unique<alaya::UringReactor>(), io->set_reactor(reactor.get());
    } else {
      for (auto &l : graph) for (auto &x : l) x %= s.n;  // the cache walks the graph
      nc.generate(graph, flat.data(), 0, s.n, s.dim, s.deg, 1.0);
      for (uint32_t i = 0; i < s.n; ++i) { auto x = stamped(i, 0, s); nc.upsert_node(i, x.v.data(), static_cast<uint32_t>(x.nb.size()), x.nb.data()); }
    }
    std::vector<std::atomic<uint32_t>> done(s.n), begun(s.n);
    std::atomic<bool> stop{false};
    std::atomic<uint64_t> obs{0}, mixed{0};
    constexpr int W = 2, R = 3;
    int rounds = static_cast<int>(tiered(2500, 6000));
    std::vector<std::thread> th;
    for (int w = 0; w < W; ++w)
      th.emplace_back([&, w, seed = r.next()] {
        Rng q(seed);
        for (int k = 0; k < rounds; ++k) {
          uint32_t id = static_cast<uint32_t>(q.below(s.n / W)) * W + static_cast<uint32_t>(w);
          if (id >= s.n) continue;
          uint32_t ver = begun[id] + 1;
          auto x = stamped(id, ver, s);
          begun[id] = ver;
          if (use_io) io->write_node(id, x.v.data(), static_cast<uint32_t>(x.nb.size()), x.nb.data());
          else nc.upsert_node(id, x.v.data(), static_cast<uint32_t>(x.nb.size()), x.nb.data());
          done[id] = ver;
          if (use_io && q.chance(0.03)) io->flush_dirty_pages();
          if (q.chance(0.2)) std::this_thread::yield();
        }
      });
    for (int t2 = 0; t2 < R; ++t2)
      th.emplace_back([&, t2, seed = r.next()] {
        Rng q(seed);
        while (!stop) {
          uint32_t id = static_cast<uint32_t>(q.below(s.n));
          uint32_t lo = done[id];
          Rec got;
          const char *path = "lookup";
          if (use_io) {
            int how = static_cast<int>(q.below(3));
            if (how == 0) { auto d = io->read_node(id); got = {d.coords, d.nbrs}; path = "read_node"; }
            else if (how == 1) { auto d = coro::sync_wait(io->read_node_async(id, pool)); got = {d.coords, d.nbrs}; path = "read_node_async"; }
            else {
              path = "read_neighbors_batch";
              Ids v{id, static_cast<uint32_t>(q.below(s.n))};
              got.nb = io->read_neighbors_batch(v.data(), 2)[0];
              got.v.assign(s.dim, got.nb.empty() ? 0.0F : static_cast<float>(got.nb[0]));
            }
          } else {
            auto hit = nc.lookup_record(id);
            VF_CHECK(static_cast<bool>(hit), "ncache-conc:lost", "cached node ", id, " vanished");
            if (!hit) continue;
            std::this_thread::yield();  // the record must stay intact while it is held
            std::vector<char> raw(hit.get(), hit.get() + g.node_len);
            got = decode(raw, 0, s);
          }
          uint32_t hi = begun[id];
          bool ok = false;
          for (uint32_t ver = lo; ver <= hi && !ok; ++ver) ok = got == stamped(id, ver, s);
          if (hi > lo) ++mixed;
          ++obs;
          VF_CHECK(ok, use_io ? "pageio-conc:record" : "ncache-conc:record", path, ": node ", id, " read as [", got.v.empty() ? -1.0F : got.v[0], " x", got.v.size(), ", ",
                   got.nb.size(), " neighbours ", got.nb.empty() ? 0 : got.nb[0], "], between versions ", lo, " and ", hi, " (", desc(s), " cache ", cap, ")");
        }
      });
    for (int w = 0; w < W; ++w) th[static_cast<size_t>(w)].join();
    stop = true;
    for (size_t i = W; i < th.size(); ++i) th[i].join();
    if (use_io) {
      io->flush_dirty_pages(), io.reset();
      auto f = slurp(t.s("x"));
      for (uint32_t i = 0; i < s.n; ++i)
        VF_CHECK(decode(f, g.file_offset(i), s) == stamped(i, done[i], s), "pageio-conc:final", "after the flush the file holds a lost or torn record of node ", i);
    }
    pool.shutdown();
    count(use_io ? "page_observations" : "cache_observations", obs), count("overlapped_reads", mixed), seen = obs;
  }
  distinct(h.add(seen).add(r.next()).get());
}

// ---------------------------------------------------------------- product quantization (N05)
static double l2(const float *a, const float *b, size_t d) {
  double s = 0;
  for (size_t i = 0; i < d; ++i) s += (static_cast<double>(a[i]) - b[i]) * (static_cast<double>(a[i]) - b[i]);
  return s;
}
static void pq(uint64_t, Rng &r) {
  eval();
  static const uint32_t cds[] = {1, 2, 3, 4, 5, 8, 12, 16, 24, 33};
  uint32_t cd = cds[r.below(std::size(cds))];
  uint32_t m = static_cast<uint32_t>(r.chance(0.15) ? r.range(60, 70) : r.range(1, 12));
  if (cd > 8 && m > 12) cd = 2;
  size_t dim = static_cast<size_t>(cd) * m;
  size_t n = r.chance(0.15) ? 1 + r.below(3) : r.chance(0.35) ? r.range(250, 262) : r.chance(0.4) ? r.range(4, 200) : r.range(263, dim > 100 ? 500 : 900);
  int kind = static_cast<int>(r.below(5));  // gaussian, few distinct, all equal, large offset, tiny spread per chunk
  std::vector<Vec> proto(1 + r.below(40), Vec(dim));
  for (auto &v : proto) for (auto &x : v) x = static_cast<float>(r.gauss() * 3);
  auto gen = [&] {
    Vec v = proto[kind == 2 ? 0 : r.below(proto.size())];
    if (kind == 0 || kind == 3) for (auto &x : v) x = static_cast<float>(r.gauss() + (kind == 3 ? 500 : 0));
    if (kind == 4) for (size_t i = 0; i < dim; ++i) v[i] = static_cast<float>(r.gauss() * std::pow(4.0, static_cast<double>((i / cd) % 5) - 2));
    return v;
  };
  Vec data;
  for (size_t i = 0; i < n; ++i) { auto v = gen(); data.insert(data.end(), v.begin(), v.end()); }
  uint64_t seed = r.next();
  uint32_t iters = static_cast<uint32_t>(r.range(0, 6));
  PQTable t;
  if (r.chance(0.4)) {  // a table in use before: nothing of its earlier life may show
    Vec other(std::min<size_t>(n, 60) * dim);
    for (auto &x : other) x = static_cast<float>(r.gauss() * 20);
    t.train(other.data(), other.size() / dim, dim, m, 1, 7, 1);
    t.encode(other.data(), other.size() / dim, 1);
    (void)t.pq_symmetric_distance(static_cast<uint64_t>(0), 0);
    count("retrained_tables");
  }
  t.train(data.data(), n, dim, m, iters, seed, static_cast<uint32_t>(r.range(1, 4)));
  t.encode(data.data(), n, static_cast<uint32_t>(r.range(1, 4)));
  std::string d = cat("n=", n, " dim=", dim, " chunks=", m, " kind=", kind, " iters=", iters);
  auto &cb = t.codebook();
  auto &gc = t.global_centroid();
  VF_CHECK(t.num_points() == n && t.codes().size() == n * m && gc.size() == dim && cb.size() == 256 * dim, "pq:sizes", d, " codes ", t.codes().size());
  if (t.codes().size() != n * m || cb.size() != 256 * dim || gc.size() != dim) return;
  double scale = 1e-12;
  for (float x : data) scale = std::max(scale, std::abs(static_cast<double>(x)));
  for (float x : cb) VF_CHECK(std::abs(x) <= 4 * scale + 1e-6, "pq:codebook-range", d, " centroid value ", x, " far outside the data");
  auto cent = [&](uint32_t c, uint32_t k) { return cb.data() + (static_cast<size_t>(c) * 256 + k) * cd; };
  auto nearest_ok = [&](const char *what, const float *v, const uint8_t *code, uint64_t id) {
    for (uint32_t c = 0; c < m; ++c) {
      Vec res(cd);
      for (uint32_t i = 0; i < cd; ++i) res[i] = v[c * cd + i] - gc[c * cd + i];
      double best = 1e300, mine = l2(res.data(), cent(c, code[c]), cd);
      for (uint32_t k = 0; k < 256; ++k) best = std::min(best, l2(res.data(), cent(c, k), cd));
      count("codes_judged");
      double ulp = scale * scale * 1e-11 * cd;
      VF_CHECK(mine <= best * (1 + 1e-4) + ulp + 1e-12, "pq:nearest", what, " ", d, ": vector ", id, " chunk ", c, " has a code at ", mine, ", nearest is ", best);
    }
  };
  std::vector<Vec> rec(n, Vec(dim));
  double err = 0, var = 0;
  for (size_t i = 0; i < n; ++i) {
    const uint8_t *code = t.codes().data() + i * m;
    if (i < 60 || i + 20 > n) nearest_ok("encode", &data[i * dim], code, i);
    for (uint32_t c = 0; c < m; ++c) for (uint32_t x = 0; x < cd; ++x) rec[i][c * cd + x] = gc[c * cd + x] + cent(c, code[c])[x];
    err += l2(rec[i].data(), &data[i * dim], dim), var += l2(gc.data(), &data[i * dim], dim);
  }
  // What training is for: it is exact when the codebook can hold every point, and never worse than the mean alone.
  double round = static_cast<double>(n) * static_cast<double>(dim) * scale * scale * 1e-11;
  VF_CHECK(err <= var * 1.02 + round, "pq:worse-than-mean", d, " squared error ", err, " exceeds the spread ", var);
  bool few = n <= 256 || kind == 2 || (kind == 1 && iters >= 0 && proto.size() <= 40);
  if (few) {
    count("exact_codebooks");
    VF_CHECK(err <= var * 1e-6 + round, "pq:exact", d, " ", proto.size(), " prototypes: squared error ", err, " although the codebook can hold every chunk (spread ", var, ")");
  } else if (kind == 0 || kind == 3) {
    // 256 centroids drawn from n points leave at most the other n-256 with an error
    VF_CHECK(err <= var * (cd == 1 ? 0.2 : 0.95) + round, "pq:quality", d, " squared error ", err, " of spread ", var);
  }
  // tables of query distances
  Vec tab(static_cast<size_t>(m) * 256), scr(dim);
  for (int q = 0; q < 6; ++q) {
    Vec qv = gen();
    if (r.chance(0.3)) qv = Vec(data.begin(), data.begin() + static_cast<long>(dim));
    t.preprocess_query(qv.data(), tab.data(), scr.data());
    Ids ids(1 + r.below(230));
    for (auto &x : ids) x = static_cast<uint32_t>(r.below(n));
    Vec out(ids.size(), -1.0F);
    t.pq_distance_batch(ids.data(), static_cast<uint32_t>(ids.size()), tab.data(), out.data());
    for (size_t k = 0; k < ids.size(); ++k) {
      double want = l2(qv.data(), rec[ids[k]].data(), dim);
      double tol = want * 2e-4 + scale * std::sqrt(want) * 1e-5 + scale * scale * 1e-10 * static_cast<double>(dim) + 1e-9;
      float one = t.pq_distance(ids[k], tab.data());
      count("table_distances");
      VF_CHECK(std::abs(one - want) <= tol, "pq:distance", d, " table distance ", one, " to vector ", ids[k], ", to its reconstruction ", want);
      VF_CHECK(std::abs(out[k] - want) <= tol, "pq:batch", d, " batch distance ", out[k], " at ", k, " of ", ids.size(), ", to the reconstruction ", want);
    }
    for (int k = 0; k < 40; ++k) {
      uint64_t a = r.below(n), b = r.below(n);
      double want = l2(rec[a].data(), rec[b].data(), dim);
      double tol = want * 2e-4 + scale * std::sqrt(want) * 1e-5 + scale * scale * 1e-10 * static_cast<double>(dim) + 1e-9;
      VF_CHECK(std::abs(t.pq_symmetric_distance(a, b) - want) <= tol, "pq:symmetric", d, " symmetric distance ", t.pq_symmetric_distance(a, b), " of ", a, ",", b, " expected ", want);
      std::vector<uint8_t> code(m);
      t.encode_to_code(qv.data(), code.data());
      nearest_ok("encode_to_code", qv.data(), code.data(), 0);
      Vec rq(dim);
      for (uint32_t c = 0; c < m; ++c) for (uint32_t x = 0; x < cd; ++x) rq[c * cd + x] = gc[c * cd + x] + cent(c, code[c])[x];
      want = l2(rq.data(), rec[b].data(), dim);
      tol = want * 2e-4 + scale * std::sqrt(want) * 1e-5 + scale * scale * 1e-10 * static_cast<double>(dim) + 1e-9;
      VF_CHECK(std::abs(t.pq_symmetric_distance(code.data(), b) - want) <= tol, "pq:symmetric-code", d, " symmetric distance of a code ", t.pq_symmetric_distance(code.data(), b),
               " expected ", want);
      if (k > 4 && dim > 64) break;
    }
  }
  for (uint64_t bad : std::vector<uint64_t>{n, n + 1000, ~0ull}) {
    int refused = 0;
    try { (void)t.pq_symmetric_distance(bad, 0); } catch (const std::out_of_range &) { ++refused; }
    try { (void)t.pq_symmetric_distance(static_cast<uint64_t>(0), bad); } catch (const std::out_of_range &) { ++refused; }
    VF_CHECK(refused == 2, "pq:range", "a symmetric distance to vector ", bad, " of ", n, " was answered");
    count("refusals", 2);
  }
  // the same input, seed and any number of threads give the same codebook and codes
  {
    PQTable u;
    u.train(data.data(), n, dim, m, iters, seed, static_cast<uint32_t>(r.range(1, 8)));
    u.encode(data.data(), n, static_cast<uint32_t>(r.range(1, 8)));
    VF_CHECK(u.codebook() == cb && u.global_centroid() == gc && u.codes() == t.codes(), "pq:reproducible", d, " training twice with one seed differs");
    count("retrainings");
  }
  // single vectors: re-encoded in place, appended, skipping ahead
  auto check_same = [&](const char *when, PQTable &u, const std::vector<uint8_t> &codes, uint64_t cnt) {
    VF_CHECK(u.num_points() == cnt && u.codes() == codes, "pq:codes", when, " ", d, ": ", u.num_points(), " points, expected ", cnt, "; codes equal=", u.codes() == codes);
    VF_CHECK(u.codebook() == cb && u.global_centroid() == gc, "pq:codebook", when, " ", d, ": codebook changed");
  };
  std::vector<uint8_t> codes = t.codes();
  uint64_t cnt = n;
  for (int i = 0; i < 25; ++i) {
    uint64_t id = r.chance(0.5) ? r.below(cnt) : cnt + (r.chance(0.3) ? r.below(5) : 0);
    Vec v = gen();
    t.encode_one(v.data(), id);
    if (id >= cnt) codes.resize((id + 1) * m, 0), cnt = id + 1;
    VF_CHECK(t.num_points() == cnt && t.codes().size() == codes.size(), "pq:grow", d, " after vector ", id, ": ", t.num_points(), " points, expected ", cnt);
    if (t.codes().size() != codes.size()) return;
    std::copy_n(t.codes().begin() + static_cast<long>(id * m), m, codes.begin() + static_cast<long>(id * m));
    nearest_ok("encode_one", v.data(), codes.data() + id * m, id);
    check_same("encode_one", t, codes, cnt);
    count("single_encodings");
  }
  Tmp tmp("pq");
  t.save(tmp.s("p"), tmp.s("c"));
  PQTable u;
  if (r.chance(0.5)) {
    u.train(data.data(), std::min<size_t>(n, 20), dim, m, 1, 1, 1);
    if (r.chance(0.6)) u.encode(data.data(), std::min<size_t>(n, 20), 1), (void)u.pq_symmetric_distance(static_cast<uint64_t>(0), 0);
  }
  u.load(tmp.s("p"), tmp.s("c"), cnt, dim, m);
  check_same("load", u, codes, cnt);
  VF_CHECK(u.dim() == dim && u.n_chunks() == m && u.chunk_dim() == cd, "pq:shape", "loaded shape ", u.dim(), "/", u.n_chunks());
  Vec tab2(tab.size());
  Vec qv = gen();
  t.preprocess_query(qv.data(), tab.data(), scr.data());
  u.preprocess_query(qv.data(), tab2.data(), scr.data());
  for (int k = 0; k < 40; ++k) {
    uint64_t a = r.below(cnt), b = r.below(cnt);
    VF_CHECK(u.pq_distance(a, tab2.data()) == t.pq_distance(a, tab.data()) && u.pq_symmetric_distance(a, b) == t.pq_symmetric_distance(a, b), "pq:reload",
             d, " distances differ after save and load");
  }
  // a wrong shape is refused
  int refused = 0;
  try { PQTable w; w.load(tmp.s("p"), tmp.s("c"), cnt + 1, dim, m); } catch (const std::exception &) { ++refused; }
  try { PQTable w; w.load(tmp.s("p"), tmp.s("c"), cnt, dim * 2, m); } catch (const std::exception &) { ++refused; }
  try { PQTable w; w.load(tmp.s("p"), tmp.s("c"), cnt, dim, m * 2 + (dim % (m * 2) ? 0 : 0)); if (m == 0) ++refused; } catch (const std::exception &) { ++refused; }
  try { PQTable w; w.train(data.data(), n, dim, static_cast<uint32_t>(dim + 1), 1); } catch (const std::exception &) { ++refused; }
  VF_CHECK(refused == 4, "pq:refusal", d, " only ", refused, " of 4 wrong shapes were refused");
  count("reopens"), count("refusals", 4);
  Hash h;
  h.add(codes.data(), codes.size()).add(seed);
  distinct(h.get());
  if (r.chance(0.05)) sample(cat(d, " squared error ", err, " of ", var));
}

int main(int argc, char **argv) {
  init(argc, argv);
  g_uring = !getenv("VF_NO_URING") && alaya::UringReactor::is_available();
  auto &m = ctx().mode;
  if (m == "model") {
    cases("slots", tiered(150, 1500), slots);
    cases("bits", tiered(100, 1000), bits);
  } else if (m == "layout") cases("layout", tiered(160, 1600), layout);
  else if (m == "conc") cases("conc", tiered(45, 300), conc);
  else if (m == "pq") cases("pq", tiered(60, 800), pq);
  return finish();
}
