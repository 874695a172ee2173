// N01 static DiskANN search; N02 updates against a model; N03 searches while updates run.
#include <numeric>
#include <thread>
#include "vf.hpp"
#include "aiopool.hpp"
#include "index/graph/diskann/diskann_index.hpp"

using namespace vf;
using namespace alaya::diskann;
constexpr uint64_t kNo = DiskANNIndex::kNoLabel;
using Vec = std::vector<float>;

static double l2(const float *a, const float *b, size_t d) {
  double s = 0;
  for (size_t i = 0; i < d; ++i) s += (static_cast<double>(a[i]) - b[i]) * (static_cast<double>(a[i]) - b[i]);
  return s;
}
struct Gen {
  size_t dim;
  int kind;
  std::vector<Vec> centres;
  Gen(Rng &r, size_t d, int k) : dim(d), kind(k) {
    for (int i = 0; i < 6; ++i) { Vec c(d); for (auto &x : c) x = static_cast<float>(2 * r.gauss()); centres.push_back(c); }
  }
  Vec operator()(Rng &r) const {
    Vec v(dim);
    auto &c = centres[r.below(6)];
    for (size_t i = 0; i < dim; ++i) v[i] = static_cast<float>((kind == 1 ? c[i] : 0) + r.gauss() * (kind == 2 ? 50 : 1));
    return v;
  }
};
static std::vector<uint64_t> labels_for(Rng &r, size_t n) {
  std::set<uint64_t> s;
  std::vector<uint64_t> v;
  bool plain = r.chance(0.3);
  while (v.size() < n) {
    uint64_t x = plain ? v.size() : r.chance(0.5) ? r.next() : r.below(4 * n + 8);
    if (x != kNo && s.insert(x).second) v.push_back(x);
  }
  return v;
}
// the graph as stored, and what a search can reach in it
struct Stored {
  uint64_t slots = 0;
  uint32_t medoid = 0;
  std::vector<std::vector<uint32_t>> nb;
  std::vector<Vec> co;
};
static Stored read_graph(const fs::path &p, uint64_t slots) {
  auto raw = slurp(p);
  Stored s;
  s.slots = slots;
  uint64_t dim, node_len, per;
  uint32_t maxdeg;
  std::memcpy(&dim, raw.data() + 8, 8), std::memcpy(&s.medoid, raw.data() + 16, 4), std::memcpy(&maxdeg, raw.data() + 20, 4);
  std::memcpy(&node_len, raw.data() + 24, 8), std::memcpy(&per, raw.data() + 32, 8);
  auto g = DiskLayoutGeometry::compute(dim, maxdeg);
  for (uint64_t i = 0; i < slots; ++i) {
    uint64_t off = g.file_offset(i);
    Vec v(dim);
    uint32_t nn = 0;
    std::vector<uint32_t> nb;
    if (off + dim * 4 + 4 <= raw.size()) {
      std::memcpy(v.data(), raw.data() + off, dim * 4), std::memcpy(&nn, raw.data() + off + dim * 4, 4);
      nn = std::min(nn, maxdeg);
      nb.resize(nn);
      if (off + dim * 4 + 4 + nn * 4 <= raw.size()) std::copy_n(raw.data() + off + dim * 4 + 4, nn * 4, reinterpret_cast<char *>(nb.data()));
    }
    s.nb.push_back(nb), s.co.push_back(v);
  }
  return s;
}
static std::vector<char> reach(const Stored &s) {
  std::vector<char> in(s.slots, 0);
  std::vector<uint32_t> st{s.medoid};
  in[s.medoid] = 1;
  while (!st.empty()) {
    auto u = st.back();
    st.pop_back();
    for (auto v : s.nb[u]) if (v < s.slots && !in[v]) in[v] = 1, st.push_back(v);
  }
  return in;
}

struct Ans { std::vector<uint64_t> l; std::vector<float> d; uint32_t n; };
static Ans ask(const DiskANNIndex &x, const Vec &q, uint32_t k, const DiskANNSearchParams &sp) {
  Ans a{std::vector<uint64_t>(k, 77), std::vector<float>(k, -7), 0};
  thread_local uint64_t turn = 0;
  if (++turn % 3) {
    a.n = x.search(q.data(), k, a.l.data(), a.d.data(), sp);
    return a;
  }
  SearchStats st;  // asking for statistics changes nothing, and no node is visited twice
  a.n = x.search(q.data(), k, a.l.data(), a.d.data(), sp, &st);
  count("searches_with_stats");
  VF_CHECK(st.read_order.size() == st.n_nodes_processed, "stats:count", st.read_order.size(), " nodes listed, ", st.n_nodes_processed, " counted");
  VF_CHECK(st.n_nodes_processed >= a.n, "stats:count", a.n, " results from ", st.n_nodes_processed, " nodes");
  auto ids = st.read_order;
  std::sort(ids.begin(), ids.end());
  VF_CHECK(std::adjacent_find(ids.begin(), ids.end()) == ids.end(), "stats:twice", "a node is visited twice in one search");
  return a;
}
using Model = std::map<uint64_t, Vec>;
// what every answer must satisfy; exact: distances are the true ones
static void judge(const Ans &a, const Model &m, const Vec &q, uint32_t k, bool exact, const std::string &w) {
  count("answers");
  VF_CHECK(a.n <= k && a.n <= m.size(), "result:count", w, a.n, " results for k=", k, " of ", m.size(), " vectors");
  std::set<uint64_t> seen;
  float prev = -1;
  for (uint32_t i = 0; i < k; ++i) {
    if (i >= a.n) {
      VF_CHECK(a.l[i] == kNo && a.d[i] == std::numeric_limits<float>::max(), "result:padding", w, "rank ", i, " of ", a.n, " is ", a.l[i], " at ", a.d[i]);
      continue;
    }
    auto it = m.find(a.l[i]);
    VF_CHECK(it != m.end(), "result:label", w, "rank ", i, " is label ", a.l[i], ", not in the index");
    VF_CHECK(seen.insert(a.l[i]).second, "result:duplicate", w, "label ", a.l[i], " twice");
    VF_CHECK(a.d[i] >= prev, "result:order", w, "rank ", i, " at ", a.d[i], " follows ", prev);
    prev = a.d[i];
    if (exact && it != m.end()) {
      double e = l2(q.data(), it->second.data(), q.size());
      VF_CHECK(std::fabs(a.d[i] - e) <= 2e-5 * e + 1e-5, "result:distance", w, "label ", a.l[i], " reported at ", a.d[i], " is at ", e);
    }
  }
}
// the k nearest of those labels in the allowed set
static void judge_exact(const Ans &a, const Model &m, const std::set<uint64_t> *only, const Vec &q, uint32_t k, const std::string &w) {
  std::vector<double> t;
  for (auto &[l, v] : m) if (!only || only->count(l)) t.push_back(l2(q.data(), v.data(), q.size()));
  std::sort(t.begin(), t.end());
  size_t need = std::min<size_t>(k, t.size());
  count("exhaustive_answers");
  VF_CHECK(a.n == need, "result:too-few", w, a.n, " results although ", t.size(), " are connected, k=", k);
  for (size_t i = 0; i < std::min<size_t>(a.n, need); ++i)
    VF_CHECK(std::fabs(a.d[i] - t[i]) <= 4e-5 * t[i] + 2e-5, "result:not-nearest", w, "rank ", i, " at ", a.d[i], ", the nearest is at ", t[i]);
}
struct Rec { double n = 0, s = 0, low = 2; std::string who; };
static std::map<std::string, Rec> g_rec;
static void rec(const std::string &k, double x, const std::string &w) {
  auto &r = g_rec[k];
  r.n += 1, r.s += x;
  if (x < r.low) r.low = x, r.who = w;
}
static double recall(const Ans &a, const Model &m, const Vec &q, uint32_t k) {
  std::vector<double> t;
  for (auto &[l, v] : m) t.push_back(l2(q.data(), v.data(), q.size()));
  std::sort(t.begin(), t.end());
  size_t kk = std::min<size_t>(k, t.size()), hit = 0;
  if (!kk) return 1;
  for (uint32_t i = 0; i < a.n; ++i) {
    auto it = m.find(a.l[i]);
    if (it != m.end() && l2(q.data(), it->second.data(), q.size()) <= t[kk - 1] * (1 + 1e-5) + 1e-6) ++hit;
  }
  return static_cast<double>(std::min(hit, kk)) / kk;
}
static void judge_recalls() {
  for (auto &[k, r] : g_rec) {
    if (r.n < 20) continue;
    double floor = k == "own" || k == "churn" ? 0.93 : k == "own-conc" || k == "reach" ? 0.97 : k == "own-pq" || k == "churn-pq" ? 0.86 : k == "small-L" ? 0.9 : k == "pq-rerank" ? 0.85 : k == "pq-plain" ? 0.7 : 0.9;
    count(("permille_" + k).c_str(), static_cast<uint64_t>(1000 * r.s / r.n));
    VF_CHECK(r.s / r.n >= floor, "recall:" + k, "mean ", r.s / r.n, " over ", r.n, " searches; worst ", r.low, " for ", r.who);
  }
}
static bool g_uring = false;

struct Shape {
  size_t n, dim;
  int kind;
  DiskANNBuildParams bp;
  std::string s;
};
static Shape shape(uint64_t c, Rng &r, size_t maxn, bool churn) {
  Shape x;
  x.n = c % 5 == 4 ? std::array<size_t, 6>{1, 2, 3, 5, 9, 17}[r.below(6)] : 40 + r.below(maxn);
  x.dim = std::array<size_t, 9>{1, 4, 8, 16, 33, 64, 128, 960, 1200}[r.below(c % 3 ? 7 : 9)];
  if (x.dim < 4 && c % 5 != 4) x.dim = 4;
  x.kind = static_cast<int>(r.below(3));
  x.bp.R = std::array<uint32_t, 4>{8, 16, 32, 64}[r.below(4)];
  if (churn && x.bp.R < 16) x.bp.R = 16;
  x.bp.L = x.bp.R + 30 + static_cast<uint32_t>(r.below(40));
  x.bp.record_capacity = r.chance(0.4) ? x.bp.R + static_cast<uint32_t>(r.below(33)) : 0;
  x.bp.cache_ratio = std::array<double, 5>{0, 0.02, 0.1, 0.5, 1}[r.below(5)];
  x.bp.num_threads = 1 + static_cast<uint32_t>(r.below(4));
  x.bp.seed = r.next();
  x.bp.pq_train_iters = 4 + static_cast<uint32_t>(r.below(6));
  if (r.chance(0.5)) {
    std::vector<uint32_t> ok;
    for (uint32_t k : {1, 2, 3, 4, 8, 11, 16, 32, 60}) if (x.dim % k == 0 && x.dim / k <= 40) ok.push_back(k);
    if (!ok.empty()) x.bp.pq_n_chunks = ok[r.below(ok.size())];
  }
  x.s = cat("n=", x.n, " dim=", x.dim, " data ", x.kind, " R=", x.bp.R, "/", x.bp.record_capacity, " pq=", x.bp.pq_n_chunks, " cache=", x.bp.cache_ratio, " ");
  return x;
}
static Model build(const fs::path &dir, Shape &x, Rng &r, Gen &g, std::vector<uint64_t> &labels) {
  labels = labels_for(r, x.n);
  Model m;
  Vec flat;
  for (auto l : labels) {
    Vec v = x.kind == 2 && !m.empty() && r.chance(0.05) ? m.begin()->second : g(r);
    m[l] = v;
    flat.insert(flat.end(), v.begin(), v.end());
  }
  DiskANNIndex::build(dir.string(), flat.data(), labels.data(), x.n, x.dim, x.bp);
  return m;
}
static DiskANNLoadParams load_params(Rng &r, uint32_t scratch) {
  DiskANNLoadParams lp;
  lp.num_threads = 1 + static_cast<uint32_t>(r.below(5));
  lp.beam_width = std::array<uint32_t, 5>{0, 1, 2, 4, 16}[r.below(5)];
  lp.nopq_io_depth = std::array<uint32_t, 4>{0, 1, 8, 100}[r.below(4)];
  lp.scratch_search_list_size = scratch;
  return lp;
}
static void updatable(Rng &r, DiskANNLoadParams &lp) {
  lp.updatable = true;
  lp.update_search_l = r.chance(0.5) ? 0 : 40 + static_cast<uint32_t>(r.below(60));
  lp.update_rerank = r.chance(0.5);
  lp.update_insert_prune = r.chance(0.3);
  lp.page_cache_capacity = std::array<size_t, 5>{0, 1, 3, 32, 4096}[r.below(5)];
  lp.update_insert_threads = 1 + static_cast<uint32_t>(r.below(6));
  lp.update_reconnect_threads = 1 + static_cast<uint32_t>(r.below(4));
  lp.update_io = r.chance(0.5) ? DiskANNUpdateIO::kBlocking : g_uring ? DiskANNUpdateIO::kUring : DiskANNUpdateIO::kAuto;
  lp.update_search_concurrency = r.chance(0.5) ? 0 : 1 + static_cast<uint32_t>(r.below(4));
  lp.search_page_cache = r.chance(0.6);
  lp.safety_net_ratio = std::array<double, 3>{0.05, 0.01, 2}[r.below(3)];
  lp.safety_net_ops = std::array<uint64_t, 3>{16, 1, 4}[r.below(3)];
}
static std::string show(const DiskANNLoadParams &lp) {
  return cat("beam=", lp.beam_width, " depth=", lp.nopq_io_depth, " upd=", lp.updatable, " io=", static_cast<int>(lp.update_io), " pages=", lp.page_cache_capacity,
             " threads=", lp.num_threads, "/", lp.update_insert_threads, "/", lp.update_reconnect_threads, " conc=", lp.update_search_concurrency, " spc=", lp.search_page_cache,
             " prune=", lp.update_insert_prune, " rerank=", lp.update_rerank, " ");
}

static void n01(uint64_t c, Rng &r) {
  Tmp t("d");
  auto x = shape(c, r, tiered(260, 2500), false);
  Gen g(r, x.dim, x.kind);
  std::vector<uint64_t> labels;
  progress(x.s);
  Model m = build(t.p / "i", x, r, g, labels);
  eval();
  auto st = read_graph(t.p / "i" / "diskann.index", x.n);
  auto in = reach(st);
  std::set<uint64_t> only;
  for (size_t i = 0; i < x.n; ++i) {
    if (in[i]) only.insert(labels[i]);
    VF_CHECK(st.co[i] == m[labels[i]], "layout:vector", x.s, "slot ", i, " does not store its vector");
  }
  rec("reach", static_cast<double>(only.size()) / static_cast<double>(x.n), x.s);
  std::vector<Vec> qs;
  for (int i = 0; i < 6; ++i) {
    Vec q = m[labels[r.below(x.n)]];
    if (i % 3) for (auto &y : q) y += static_cast<float>(0.3 * r.gauss());
    qs.push_back(q);
  }
  uint32_t full = static_cast<uint32_t>(x.n + r.below(20));
  Hash h;
  h.add(x.s);
  std::vector<std::map<std::string, Ans>> first(qs.size());
  auto idx = std::make_unique<DiskANNIndex>();
  for (int ld = 0; ld < 4; ++ld) {
    auto lp = load_params(r, full + 10);
    if (ld % 2) updatable(r, lp);
    std::string w0 = x.s + show(lp);
    progress(w0);
    if (r.chance(0.5)) idx = std::make_unique<DiskANNIndex>();
    idx->load((t.p / "i").string(), lp);
    count("loads");
    VF_CHECK(idx->size() == x.n && idx->dim() == x.dim && idx->max_slot_id() == x.n && idx->has_pq() == (x.bp.pq_n_chunks > 0), "load:counts", w0, "size ", idx->size(), " dim ", idx->dim());
    uint32_t k = 1 + static_cast<uint32_t>(r.chance(0.2) ? r.below(x.n + 4) : r.below(12));
    for (size_t qi = 0; qi < qs.size(); ++qi) {
      auto &q = qs[qi];
      for (int mode = 0; mode < 6; ++mode) {
        DiskANNSearchParams sp;
        sp.use_pq = mode >= 3;
        sp.rerank = mode != 5;
        sp.deterministic = r.chance(0.5);
        bool all = mode == 0 || mode == 3;
        sp.search_list_size = all ? full : mode == 1 ? std::max<uint32_t>(k, 40) : 1 + static_cast<uint32_t>(r.below(60));
        sp.search_list_size = std::min(sp.search_list_size, full + 9);
        if (mode == 3) sp.rerank_count = full;
        bool pq = sp.use_pq && idx->has_pq(), exact = !pq || sp.rerank;
        std::string w = cat(w0, "query ", qi, " k=", k, " L=", sp.search_list_size, " pq=", pq, " rerank=", sp.rerank, " det=", sp.deterministic, " ");
        auto a = ask(*idx, q, k, sp);
        judge(a, m, q, k, exact, w);
        if (all) judge_exact(a, m, &only, q, k, w);
        else if (x.n >= 40 && x.dim >= 4 && sp.search_list_size >= k + 20 && (!pq || sp.search_list_size >= 40)) rec(pq ? sp.rerank ? "pq-rerank" : "pq-plain" : "small-L", recall(a, m, q, k), w);
        if (sp.deterministic) {
          auto b = ask(*idx, q, k, sp);
          VF_CHECK(a.l == b.l && a.d == b.d, "deterministic:repeat", w, "a repeated search answers differently");
          std::vector<uint64_t> bl(qs.size() * k, 5);
          std::vector<float> bd(qs.size() * k, 5);
          Vec flat;
          for (auto &y : qs) flat.insert(flat.end(), y.begin(), y.end());
          idx->batch_search(flat.data(), static_cast<uint32_t>(qs.size()), k, bl.data(), bd.data(), static_cast<uint32_t>(r.below(5)), sp);
          VF_CHECK(std::equal(a.l.begin(), a.l.end(), bl.begin() + static_cast<long>(qi * k)) && std::equal(a.d.begin(), a.d.end(), bd.begin() + static_cast<long>(qi * k)), "batch:differs", w,
                   "batch search answers differently");
          count("batches");
        }
        for (auto l : a.l) h.add(l);
      }
    }
    // pipelined
    if (lp.updatable && g_uring && lp.update_io == DiskANNUpdateIO::kUring) {
      for (int pq = 0; pq < 2; ++pq) {
        DiskANNSearchParams sp;
        sp.use_pq = pq, sp.rerank = false, sp.search_list_size = full, sp.deterministic = r.chance(0.5);
        std::vector<uint64_t> bl(qs.size() * k, 5);
        std::vector<float> bd(qs.size() * k, 5);
        Vec flat;
        for (auto &y : qs) flat.insert(flat.end(), y.begin(), y.end());
        idx->search_pipelined(flat.data(), static_cast<uint32_t>(qs.size()), k, bl.data(), bd.data(), 1 + static_cast<uint32_t>(r.below(3)), 1 + static_cast<uint32_t>(r.below(8)), sp);
        for (size_t qi = 0; qi < qs.size(); ++qi) {
          Ans a{{bl.begin() + static_cast<long>(qi * k), bl.begin() + static_cast<long>((qi + 1) * k)}, {bd.begin() + static_cast<long>(qi * k), bd.begin() + static_cast<long>((qi + 1) * k)}, 0};
          while (a.n < k && a.l[a.n] != kNo) ++a.n;
          std::string w = cat(w0, "pipelined query ", qi, " k=", k, " pq=", pq, " ");
          judge(a, m, qs[qi], k, true, w);
          judge_exact(a, m, &only, qs[qi], k, w);
          count("pipelined");
        }
      }
    }
    // the device fails for a while: a search answers rightly or throws, and nothing stays broken once the bytes are back
    if (r.chance(0.6)) {
      fs::path file = t.p / "i" / "diskann.index";
      auto bytes = slurp(file);
      DiskANNSearchParams sp;
      sp.search_list_size = full, sp.use_pq = false;
      fs::resize_file(file, r.chance(0.3) ? 4096 : 4096 * r.below(bytes.size() / 4096));
      uint32_t bad = 0, rounds = 2 * lp.num_threads + 4;
      for (uint32_t i = 0; i < rounds; ++i) {
        auto &q = qs[r.below(qs.size())];
        sp.use_pq = r.chance(0.3), sp.deterministic = r.chance(0.5), sp.search_list_size = r.chance(0.5) ? full : 1 + static_cast<uint32_t>(r.below(40));
        bool pq = sp.use_pq && idx->has_pq();
        try {
          if (i % 4 == 3) {
            std::vector<uint64_t> bl(qs.size() * k, 5);
            std::vector<float> bd(qs.size() * k, 5);
            Vec flat;
            for (auto &y : qs) flat.insert(flat.end(), y.begin(), y.end());
            if (r.chance(0.5) && lp.updatable && g_uring && lp.update_io == DiskANNUpdateIO::kUring) {
              sp.rerank = false, sp.search_list_size = full;
              idx->search_pipelined(flat.data(), static_cast<uint32_t>(qs.size()), k, bl.data(), bd.data(), 1 + static_cast<uint32_t>(r.below(3)), 1 + static_cast<uint32_t>(r.below(8)), sp);
            } else {
              idx->batch_search(flat.data(), static_cast<uint32_t>(qs.size()), k, bl.data(), bd.data(), 1 + static_cast<uint32_t>(r.below(4)), sp);
            }
            sp.rerank = true;
          } else {
            judge(ask(*idx, q, k, sp), m, q, k, !pq, cat(w0, "while the file is cut, k=", k, " pq=", pq, " "));
          }
          count("fault_answers");
        } catch (const std::exception &) {
          ++bad;
        }
      }
      count("fault_errors", bad);
      {
        std::fstream f(file, std::ios::in | std::ios::out | std::ios::binary);
        f.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
      }
      sp = {};
      sp.search_list_size = full, sp.use_pq = false;
      for (uint32_t i = 0; i < rounds; ++i) {
        auto &q = qs[r.below(qs.size())];
        std::string w = cat(w0, "after ", bad, " failed searches, k=", k, " ");
        sp.deterministic = r.chance(0.5);
        try {
          auto a = ask(*idx, q, k, sp);
          judge(a, m, q, k, true, w);
          judge_exact(a, m, &only, q, k, w);
        } catch (const std::exception &e) {
          violation("fault:stuck", cat(w, "a search of the intact file fails: ", e.what()));
        }
        count("fault_recoveries");
      }
    }
    // refusals
    auto refuse = [&](const char *what, auto fn) {
      bool threw = false;
      try { fn(); } catch (const std::exception &) { threw = true; }
      VF_CHECK(threw, "refusal", w0, what, " accepted");
      count("refusals");
    };
    uint64_t ol[4];
    float od[4];
    refuse("k=0", [&] { idx->search(qs[0].data(), 0, ol, od); });
    refuse("a null query", [&] { idx->search(nullptr, 1, ol, od); });
    if (!lp.updatable) {
      refuse("an insert into a read-only index", [&] { idx->insert(qs[0].data(), 1234567); });
      refuse("a removal from a read-only index", [&] { idx->remove(0); });
      refuse("a removal from a read-only index", [&] { idx->remove_by_label(labels[0]); });
      refuse("a flush of a read-only index", [&] { idx->flush(); });
    }
  }
  distinct(h.get());
  if (c < 4) sample(x.s);
}

// ---- N02
struct Live {
  DiskANNIndex &x;
  Model &m;
  std::map<uint64_t, uint32_t> slot;  // label -> slot, where known
};
static void n02(uint64_t c, Rng &r) {
  Tmp t("u");
  auto x = shape(c, r, tiered(80, 400), true);
  Gen g(r, x.dim, x.kind);
  std::vector<uint64_t> labels;
  progress(x.s);
  Model m = build(t.p / "i", x, r, g, labels);
  eval();
  size_t n0 = x.n, ops = 14 + r.below(tiered(26, 120));
  uint32_t full = static_cast<uint32_t>(n0 + ops * 40 + 50);
  auto lp = load_params(r, full);
  updatable(r, lp);
  std::string w0 = x.s + show(lp), hist;
  progress(w0);
  auto idx = std::make_unique<DiskANNIndex>();
  idx->load((t.p / "i").string(), lp);
  std::map<uint64_t, uint32_t> slot;
  for (size_t i = 0; i < n0; ++i) slot[labels[i]] = static_cast<uint32_t>(i);
  std::set<uint32_t> freed;
  uint64_t high = n0;
  std::vector<uint64_t> gone;
  Hash h;
  h.add(x.s);
  bool churned = false;
  auto why = [&] { return cat(w0, "[", hist.size() > 120 ? hist.substr(hist.size() - 120) : hist, "] "); };
  auto fresh_label = [&]() {
    if (!gone.empty() && r.chance(0.3)) {
      uint64_t l = gone[r.below(gone.size())];
      if (!m.count(l)) return l;
    }
    for (;;) {
      uint64_t l = r.chance(0.5) ? r.next() : r.below(100000);
      if (l != kNo && !m.count(l)) return l;
    }
  };
  auto vec = [&]() {
    Vec v = g(r);
    if (!m.empty() && r.chance(0.4)) {
      auto it = m.begin();
      std::advance(it, r.below(m.size()));
      v = it->second;
      for (auto &y : v) y += static_cast<float>(0.2 * r.gauss());
    }
    return v;
  };
  auto inserted = [&](uint64_t l, const Vec &v, uint32_t s) {
    std::string w = why();
    bool reuse = freed.erase(s) > 0;
    VF_CHECK(reuse || s == high, "slot:handed-out", w, "label ", l, " got slot ", s, ", neither freed nor the next fresh one (", high, ")");
    if (!reuse) ++high;
    m[l] = v, slot[l] = s;
    count("inserts");
    count("slot_reuses", reuse);
    h.add(l).add(static_cast<uint64_t>(s));
  };
  auto removed = [&](uint64_t l) {
    freed.insert(slot[l]);
    slot.erase(l), m.erase(l), gone.push_back(l);
    count("removes");
    h.add(l + 1);
    churned = true;
  };
  auto counts = [&] {
    std::string w = why();
    VF_CHECK(idx->live_count() == m.size() && idx->size() == m.size(), "count:live", w, "live_count ", idx->live_count(), " of ", m.size());
    VF_CHECK(idx->max_slot_id() == high, "count:slots", w, "max_slot_id ", idx->max_slot_id(), " want ", high);
    VF_CHECK(idx->tombstone_count() == freed.size() && idx->free_slot_count() == freed.size(), "count:tombstones", w, "tombstones ", idx->tombstone_count(), " free ", idx->free_slot_count(), " want ", freed.size());
    for (auto s : freed) VF_CHECK(idx->is_deleted(s), "count:deleted", w, "freed slot ", s, " is not deleted");
    for (auto &[l, s] : slot) VF_CHECK(!idx->is_deleted(s) && idx->contains_label(l), "count:deleted", w, "label ", l, " in slot ", s, " counts as deleted or absent");
    for (auto l : gone) if (!m.count(l)) VF_CHECK(!idx->contains_label(l), "count:contains", w, "removed label ", l, " is contained");
  };
  auto look = [&](int nq, bool own) {
    std::string w = why();
    for (int i = 0; i < nq; ++i) {
      Vec q = vec();
      uint64_t self = kNo;
      if (own && !m.empty()) {
        auto it = m.begin();
        std::advance(it, r.below(m.size()));
        q = it->second, self = it->first;
      }
      uint32_t k = 1 + static_cast<uint32_t>(r.below(8));
      DiskANNSearchParams sp;
      sp.search_list_size = r.chance(0.6) ? full : 30 + static_cast<uint32_t>(r.below(40));
      sp.use_pq = r.chance(0.5), sp.rerank = r.chance(0.7), sp.deterministic = r.chance(0.5);
      if (sp.search_list_size == full) sp.rerank_count = full;
      bool pq = sp.use_pq && idx->has_pq();
      auto a = ask(*idx, q, k, sp);
      judge(a, m, q, k, !pq || sp.rerank, cat(w, "k=", k, " L=", sp.search_list_size, " pq=", pq, " "));
      if (sp.search_list_size == full && (!pq || sp.rerank) && self != kNo) {
        double best = a.n ? a.d[0] : 1e30;
        rec(idx->has_pq() ? "own-pq" : "own", best <= 1e-4, cat(w, "label ", self, " of ", m.size()));
      }
      if (sp.search_list_size == full && (!pq || sp.rerank)) rec(idx->has_pq() ? "churn-pq" : "churn", recall(a, m, q, k), w);
    }
  };
  auto refuse = [&](const char *what, auto fn) {
    bool threw = false;
    try { fn(); } catch (const std::exception &) { threw = true; }
    VF_CHECK(threw, "refusal", why(), what, " accepted");
    count("refusals");
    counts();
  };
  auto any = [&]() { auto it = m.begin(); std::advance(it, r.below(m.size())); return it->first; };
  counts();
  for (size_t o = 0; o < ops; ++o) {
    int what = static_cast<int>(r.below(13));
    if (what < 3) {
      uint64_t l = fresh_label();
      Vec v = vec();
      hist += cat(" i", l % 1000);
      progress(why());
      inserted(l, v, idx->insert(v.data(), l));
    } else if (what < 5) {
      size_t k = 1 + r.below(24);
      std::vector<uint64_t> ls;
      Vec flat;
      std::vector<Vec> vs;
      std::set<uint64_t> in;
      while (ls.size() < k) {
        uint64_t l = fresh_label();
        if (!in.insert(l).second) continue;
        ls.push_back(l), vs.push_back(vec());
        flat.insert(flat.end(), vs.back().begin(), vs.back().end());
      }
      hist += cat(" I", k);
      progress(why());
      auto ids = idx->batch_insert(flat.data(), ls.data(), static_cast<uint32_t>(k), 1 + static_cast<uint32_t>(r.below(32)));
      VF_CHECK(ids.size() == k, "batch:ids", why(), ids.size(), " slots for ", k, " vectors");
      std::vector<size_t> order(k);
      std::iota(order.begin(), order.end(), 0);
      std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return ids[a] < ids[b]; });
      for (auto i : order) inserted(ls[i], vs[i], ids[i]);
    } else if (what < 7 && !m.empty()) {
      uint64_t l = any();
      hist += cat(" r", l % 1000);
      progress(why());
      if (r.chance(0.5)) idx->remove(slot[l]);
      else idx->remove_by_label(l);
      removed(l);
    } else if (what < 9 && !m.empty()) {
      std::set<uint64_t> s;
      size_t k = r.chance(0.1) ? m.size() : 1 + r.below(std::min<size_t>(m.size(), 20));
      while (s.size() < k) s.insert(any());
      std::vector<uint64_t> ls(s.begin(), s.end());
      for (size_t i = ls.size(); i > 1; --i) std::swap(ls[i - 1], ls[r.below(i)]);
      std::vector<uint32_t> ids;
      for (auto l : ls) ids.push_back(slot[l]);
      hist += cat(" R", k, k == m.size() ? "=all" : "");
      progress(why());
      if (r.chance(0.5)) idx->batch_remove(ids.data(), static_cast<uint32_t>(k));
      else idx->batch_remove_by_labels(ls.data(), static_cast<uint32_t>(k));
      for (auto l : ls) removed(l);
    } else if (what == 9 && !m.empty()) {
      hist += " u";
      progress(why());
      idx->update_node(slot[any()]);
    } else if (what == 10) {
      hist += " p";
      progress(why());
      idx->flush_pages();
    } else {
      hist += " F";
      progress(why());
      std::vector<Vec> qs;
      std::vector<Ans> before;
      DiskANNSearchParams sp;
      sp.search_list_size = full, sp.deterministic = true, sp.use_pq = false;
      for (int i = 0; i < 4; ++i) qs.push_back(vec()), before.push_back(ask(*idx, qs.back(), 5, sp));
      idx->flush();
      count("flushes");
      if (r.chance(0.7)) {
        hist += " reopen";
        progress(why());
        if (r.chance(0.5)) idx = std::make_unique<DiskANNIndex>();
        lp = load_params(r, full);
        bool ro = r.chance(0.2);
        auto up = lp;
        updatable(r, up);
        w0 = x.s + show(up);
        if (ro) {  // a read-only look first
          idx->load((t.p / "i").string(), lp);
          counts();
          look(3, false);
        }
        lp = up;
        idx->load((t.p / "i").string(), lp);
        count("reopens");
      }
      auto w = why();
      for (size_t i = 0; i < qs.size(); ++i) {
        auto a = ask(*idx, qs[i], 5, sp);
        VF_CHECK(a.l == before[i].l && a.d == before[i].d, "flush:answers", w, "query ", i, " is answered differently after flush and reopen: ", a.n, " results, before ", before[i].n, a.n ? cat(", first ", a.l[0], " at ", a.d[0]) : "", before[i].n ? cat(", before ", before[i].l[0], " at ", before[i].d[0]) : "");
      }
      auto st = read_graph(t.p / "i" / "diskann.index", high);
      for (auto &[l, s] : slot) VF_CHECK(st.co[s] == m[l], "flush:vector", w, "slot ", s, " of label ", l, " does not hold its vector on disk");
      for (auto &[l, s] : slot) for (auto v : st.nb[s]) VF_CHECK(v < high, "flush:edge", w, "slot ", s, " has an edge to ", v, " of ", high);
    }
    counts();
    if (r.chance(0.5)) look(2, r.chance(0.6));
    if (r.chance(0.15)) {
      Vec v = g(r);
      switch (r.below(11)) {
        case 0: if (!m.empty()) refuse("a duplicate label", [&] { idx->insert(v.data(), any()); }); break;
        case 1: refuse("the reserved label", [&] { idx->insert(v.data(), kNo); }); break;
        case 2: refuse("removal of an unknown label", [&] { idx->remove_by_label(fresh_label()); }); break;
        case 3: if (!freed.empty()) refuse("removal of a freed slot", [&] { idx->remove(*freed.begin()); }); break;
        case 4: refuse("removal of a slot beyond the end", [&] { idx->remove(static_cast<uint32_t>(high)); }); break;
        case 5: if (!m.empty()) {
          auto l = any();
          uint32_t two[2] = {slot[l], slot[l]};
          refuse("a batch removal naming a slot twice", [&] { idx->batch_remove(two, 2); });
          uint64_t ll[2] = {l, fresh_label()};
          refuse("a batch removal naming an unknown label", [&] { idx->batch_remove_by_labels(ll, 2); });
        } break;
        case 6: if (!m.empty()) {
          Vec f(2 * x.dim, 1);
          uint64_t ll[2] = {fresh_label(), any()};
          refuse("a batch insert naming a live label", [&] { idx->batch_insert(f.data(), ll, 2); });
          ll[1] = ll[0];
          refuse("a batch insert naming a label twice", [&] { idx->batch_insert(f.data(), ll, 2); });
        } break;
        case 7: if (!freed.empty()) refuse("update of a freed slot", [&] { idx->update_node(*freed.begin()); }); break;
        case 8: if (!m.empty()) {
          auto l = any();
          uint64_t ll[3] = {l, l, any()};
          refuse("a batch removal naming a label twice", [&] { idx->batch_remove_by_labels(ll, r.chance(0.5) ? 2 : 3); });
        } break;
        case 9: {
          Vec f(2 * x.dim, 1);
          uint64_t ll[2] = {fresh_label(), kNo};
          refuse("a batch insert naming the reserved label", [&] { idx->batch_insert(f.data(), ll, 2); });
          refuse("a batch insert in batches of nothing", [&] { idx->batch_insert(f.data(), ll, 1, 0); });
          refuse("a batch insert of a null vector", [&] { idx->batch_insert(nullptr, ll, 1); });
        } break;
        default: refuse("update of a slot beyond the end", [&] { idx->update_node(static_cast<uint32_t>(high + 3)); });
      }
    }
  }
  look(12, true);
  if (churned) distinct(h.get());
  if (c < 4) sample(cat(x.s, hist.substr(0, 150)));
}

// ---- N03
static void n03(uint64_t c, Rng &r) {
  Tmp t("c");
  auto x = shape(c % 5 == 4 ? c + 1 : c, r, 60, true);
  if (x.dim > 128) x.dim = 16, x.bp.pq_n_chunks = x.bp.pq_n_chunks ? 4 : 0;
  Gen g(r, x.dim, x.kind);
  std::vector<uint64_t> labels;
  progress(x.s);
  build(t.p / "i", x, r, g, labels);
  // build() drew the vectors: read them back
  auto st = read_graph(t.p / "i" / "diskann.index", x.n);
  eval();
  uint32_t full = static_cast<uint32_t>(x.n + 400);
  auto lp = load_params(r, full);
  updatable(r, lp);
  lp.num_threads = 3;
  std::string w0 = x.s + show(lp);
  progress(w0);
  DiskANNIndex idx;
  idx.load((t.p / "i").string(), lp);
  // per label: a vector and the times at which its calls began and ended; a label lives at most once
  struct L { Vec v; std::atomic<uint64_t> ins_begin{0}, ins_end{0}, rem_begin{0}, rem_end{0}; };
  size_t per = 40, writers = 2, total = x.n + writers * per;
  std::vector<std::unique_ptr<L>> ls;
  std::map<uint64_t, size_t> of;
  for (size_t i = 0; i < total; ++i) {
    auto l = std::make_unique<L>();
    if (i < x.n) l->v = st.co[i], l->ins_begin = l->ins_end = 1, of[labels[i]] = i;
    else {
      l->v = g(r);
      uint64_t name;
      do name = r.next(); while (name == kNo || of.count(name));
      of[name] = i;
      labels.push_back(name);
    }
    ls.push_back(std::move(l));
  }
  std::atomic<uint64_t> clock{2};
  std::atomic<bool> stop{false};
  std::atomic<uint64_t> nsearch{0}, overlap{0};
  auto writer = [&](size_t id, uint64_t seed) {
    Rng rr{seed};
    std::vector<size_t> mine, todo;  // own labels alive, still to insert
    for (size_t i = id; i < x.n; i += writers) mine.push_back(i);
    for (size_t i = 0; i < per; ++i) todo.push_back(x.n + id * per + i);
    auto rem_many = [&](std::vector<size_t> v) {
      std::vector<uint64_t> nm;
      for (auto i : v) nm.push_back(labels[i]), ls[i]->rem_begin = clock++;
      if (v.size() == 1) idx.remove_by_label(nm[0]);
      else idx.batch_remove_by_labels(nm.data(), static_cast<uint32_t>(nm.size()));
      uint64_t e = clock++;
      for (auto i : v) ls[i]->rem_end = e;
      count("removes", v.size());
    };
    auto take = [&](std::vector<size_t> &from, size_t k) {
      std::vector<size_t> v;
      while (v.size() < k && !from.empty()) {
        size_t p = rr.below(from.size());
        v.push_back(from[p]);
        from.erase(from.begin() + static_cast<long>(p));
      }
      return v;
    };
    while (!todo.empty()) {
      int w = static_cast<int>(rr.below(7));
      if (w < 2) {
        auto v = take(todo, 1);
        ls[v[0]]->ins_begin = clock++;
        idx.insert(ls[v[0]]->v.data(), labels[v[0]]);
        ls[v[0]]->ins_end = clock++;
        mine.push_back(v[0]);
        count("inserts");
      } else if (w < 4) {
        auto v = take(todo, 2 + rr.below(10));
        Vec f;
        std::vector<uint64_t> nm;
        for (auto i : v) f.insert(f.end(), ls[i]->v.begin(), ls[i]->v.end()), nm.push_back(labels[i]);
        for (auto i : v) ls[i]->ins_begin = clock++;
        idx.batch_insert(f.data(), nm.data(), static_cast<uint32_t>(nm.size()), 1 + static_cast<uint32_t>(rr.below(8)));
        uint64_t e = clock++;
        for (auto i : v) ls[i]->ins_end = e;
        mine.insert(mine.end(), v.begin(), v.end());
        count("inserts", v.size());
      } else if (w < 6) {
        auto v = take(mine, 1 + rr.below(6));
        if (!v.empty()) rem_many(v);
      } else if (rr.chance(0.5)) idx.flush_pages();
      else idx.flush();
    }
  };
  auto reader = [&](uint64_t seed) {
    Rng rr{seed};
    while (!stop) {
      size_t about = rr.below(total);
      Vec q = ls[about]->v;
      for (auto &y : q) y += static_cast<float>(0.05 * rr.gauss());
      uint32_t k = 1 + static_cast<uint32_t>(rr.below(8));
      DiskANNSearchParams sp;
      sp.search_list_size = rr.chance(0.3) ? full : 30;
      sp.use_pq = rr.chance(0.5), sp.deterministic = rr.chance(0.3), sp.rerank = true;
      if (sp.search_list_size == full) sp.rerank_count = full;
      bool pipe = g_uring && lp.update_io == DiskANNUpdateIO::kUring && rr.chance(0.3);
      if (pipe) sp.rerank = false;
      uint64_t b = clock++;
      Ans a{std::vector<uint64_t>(k, 5), std::vector<float>(k, 5), 0};
      if (pipe) {
        idx.search_pipelined(q.data(), 1, k, a.l.data(), a.d.data(), 1, 1, sp);
        while (a.n < k && a.l[a.n] != kNo) ++a.n;
      } else a.n = idx.search(q.data(), k, a.l.data(), a.d.data(), sp);
      uint64_t e = clock++;
      ++nsearch;
      if (e > b + 1) ++overlap;
      std::set<uint64_t> seen;
      std::string w = cat(w0, "search [", b, ",", e, "] k=", k, " L=", sp.search_list_size, " pq=", sp.use_pq, pipe ? " pipelined " : " ");
      for (uint32_t i = 0; i < a.n; ++i) {
        auto it = of.find(a.l[i]);
        VF_CHECK(it != of.end(), "conc:label", w, "rank ", i, " of ", a.n, " is label ", a.l[i], " which never existed");
        if (it == of.end()) continue;
        auto &L = *ls[it->second];
        VF_CHECK(seen.insert(a.l[i]).second, "conc:duplicate", w, "label ", a.l[i], " twice");
        uint64_t ib = L.ins_begin, ie = L.ins_end, rb = L.rem_begin, re = L.rem_end;
        VF_CHECK(ib && ib < e, "conc:before-insert", w, "label ", a.l[i], " is returned before its insertion began at ", ib);
        VF_CHECK(!re || re > b, "conc:after-remove", w, "label ", a.l[i], " whose removal ended at ", re, " is returned");
        if (ie && ie < b && !rb) {  // untouched since before the search
          double d = l2(q.data(), L.v.data(), x.dim);
          VF_CHECK(std::fabs(a.d[i] - d) <= 2e-5 * d + 1e-5, "conc:distance", w, "label ", a.l[i], " reported at ", a.d[i], " is at ", d);
          count("stable_distances");
        }
      }
    }
  };
  std::vector<std::thread> th, wr;
  for (int i = 0; i < 3; ++i) th.emplace_back(reader, r.next());
  for (size_t i = 0; i < writers; ++i) wr.emplace_back(writer, i, r.next());
  for (auto &y : wr) y.join();
  stop = true;
  for (auto &y : th) y.join();
  count("searches", nsearch), count("overlapping_searches", overlap);
  Model m;
  for (size_t i = 0; i < total; ++i) if (ls[i]->ins_end && !ls[i]->rem_end) m[labels[i]] = ls[i]->v;
  auto final_state = [&](const char *when) {
    std::string w = cat(w0, when, " ");
    VF_CHECK(idx.live_count() == m.size(), "conc:final-count", w, "live_count ", idx.live_count(), " want ", m.size());
    for (auto &[l, i] : of) VF_CHECK(idx.contains_label(l) == (m.count(l) > 0), "conc:final-labels", w, "label ", l, " contained ", idx.contains_label(l));
    DiskANNSearchParams sp;
    sp.search_list_size = full, sp.use_pq = false;
    for (auto &[l, v] : m) {
      auto a = ask(idx, v, 3, sp);
      judge(a, m, v, 3, true, w);
      rec("own-conc", a.n && a.d[0] <= 1e-4, cat(w, "label ", l));
    }
  };
  final_state("when the updates have ended");
  idx.flush();
  idx.load((t.p / "i").string(), lp);
  final_state("after flush and reopen");
  distinct(Hash().add(x.s).add(nsearch.load()).add(clock.load()).get());
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  spdlog::set_level(spdlog::level::off);
  g_uring = alaya::UringReactor::is_available() && !std::getenv("VF_NO_URING");
  count("io_uring_available", g_uring);
  auto &mode = vf::ctx().mode;
  if (mode == "static") vf::cases("static", tiered(40, 400), n01);
  if (mode == "update") vf::cases("update", tiered(60, 400), n02);
  if (mode == "conc") vf::cases("conc", tiered(24, 150), n03);
  judge_recalls();
  return vf::finish();
}
