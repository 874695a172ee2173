// U03: altered index files are refused or searched within what is there.  Meant for the ASan build; every file is also
// offered to the build as shipped.  Oracles: independent readers of the formats, and the labels that are in the files.
#include <fcntl.h>
#include <sys/stat.h>
#include <new>
#include <numeric>
#include <thread>
#include "vf.hpp"
#include "aiopool.hpp"
#include <spdlog/spdlog.h>
#include "index/disk/disk_collection.hpp"
#include "index/graph/diskann/diskann_index.hpp"
#include "index/graph/vamana/build_dispatch.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "index/graph/vamana/vamana_writer.hpp"
using namespace vf;
using Bytes = std::string;
using Vec = std::vector<float>;
static Bytes whole(const fs::path &p) { auto v = slurp(p); return {v.begin(), v.end()}; }

// Memory is asked for as files say; what no machine has is refused, what would exhaust this one is noted.
static std::atomic<uint64_t> g_greedy{0};
static constexpr size_t kHuge = 1ULL << 30;
static void *take(size_t n) {
  if (n > kHuge) {
    if (n < 1ULL << 42) g_greedy = n;
    throw std::bad_alloc();
  }
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

template <class T>
static T at(const Bytes &b, size_t off) { T v{}; if (off + sizeof v <= b.size()) std::memcpy(&v, b.data() + off, sizeof v); return v; }
template <class T>
static void put(Bytes &b, size_t off, T v) { if (off + sizeof v <= b.size()) std::memcpy(b.data() + off, &v, sizeof v); }
static void dump(const fs::path &p, const Bytes &b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(b.data(), static_cast<std::streamsize>(b.size())); }
// one change of a file; `words` where numbers live
static std::string alter(Rng &r, Bytes &b, size_t head = 64) {
  auto odd = [&]() -> uint64_t {
    static const uint64_t o[] = {0, 1, 2, 0x7f, 0xff, 0x100, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ULL, 1ULL << 58, 1ULL << 61, 1ULL << 62, 1ULL << 63, ~0ULL, ~0ULL - 7, 0x7fffffffffffffffULL};
    return r.chance(0.5) ? o[r.below(std::size(o))] : r.chance(0.5) ? r.below(400) : r.next();
  };
  size_t where = b.empty() ? 0 : r.chance(0.5) ? r.below(std::min(head, b.size())) : r.below(b.size());
  switch (r.below(9)) {
    case 0: case 1: { size_t n = r.chance(0.5) ? r.below(std::min(head, b.size()) + 1) : r.below(b.size() + 1); b.resize(n); return cat("cut to ", n); }
    case 2: { size_t n = r.chance(0.5) ? static_cast<size_t>(r.range(1, 16)) : r.below(9000); for (size_t i = 0; i < n; ++i) b += static_cast<char>(r.next()); return cat("grown by ", n); }
    case 3: { auto v = odd(); put<uint64_t>(b, where & ~7ULL, v); return cat("u64 at ", where & ~7ULL, " = ", v); }
    case 4: case 5: { auto v = static_cast<uint32_t>(odd()); put<uint32_t>(b, where & ~3ULL, v); return cat("u32 at ", where & ~3ULL, " = ", v); }
    case 6: { uint64_t v = at<uint32_t>(b, where & ~3ULL) + static_cast<uint32_t>(r.chance(0.5) ? 1 : -1); put<uint32_t>(b, where & ~3ULL, static_cast<uint32_t>(v)); return cat("u32 at ", where & ~3ULL, " moved by one to ", static_cast<uint32_t>(v)); }
    case 7: { if (!b.empty()) b[where] = static_cast<char>(b[where] ^ (1 << r.below(8))); return cat("bit at ", where); }
    default: { static const uint32_t f[] = {0x7fc00000u, 0x7f800000u, 0xff800000u, 0xffc00001u, 0x7f7fffffu, 1u}; size_t n = r.chance(0.3) ? b.size() / 4 : static_cast<size_t>(r.range(1, 40)); for (size_t i = 0; i < n; ++i) put<uint32_t>(b, r.below(b.size() / 4 + 1) * 4, f[r.below(6)]); return cat(n, " odd floats"); }
  }
}
static void greedy(const char *key, const std::string &why) {
  VF_CHECK(g_greedy == 0, cat(key, ":memory"), why, ": asked for ", g_greedy.load(), " bytes of memory");
  g_greedy = 0;
}

// ---------------------------------------------------------------- Vamana graph files
using Graph = std::vector<std::vector<uint32_t>>;
static bool parse_graph(const Bytes &b, Graph &g, uint32_t &deg, uint32_t &start) {
  if (b.size() < 24 || at<uint64_t>(b, 0) != b.size()) return false;
  deg = at<uint32_t>(b, 8), start = at<uint32_t>(b, 12);
  if (deg == 0 || at<uint64_t>(b, 16) != 0) return false;
  for (size_t o = 24; o < b.size();) {
    if (o + 4 > b.size()) return false;
    uint64_t k = at<uint32_t>(b, o);
    o += 4;
    if (k == 0 || k > deg || o + 4 * k > b.size()) return false;
    g.emplace_back();
    for (uint64_t i = 0; i < k; ++i, o += 4) g.back().push_back(at<uint32_t>(b, o));
  }
  for (size_t i = 0; i < g.size(); ++i) for (auto n : g[i]) if (n >= g.size() || n == i) return false;
  return !g.empty() && start < g.size();
}
static void offer_graph(const fs::path &p, const Bytes &b, const std::string &why) {
  dump(p, b);
  Graph g;
  uint32_t deg = 0, start = 0;
  bool good = parse_graph(b, g, deg, start), opened = false;
  try {
    alaya::vamana::VamanaReader x(p);
    opened = true;
    if (good) {
      bool same = x.num_nodes() == g.size() && x.start() == start;
      for (size_t i = 0; same && i < g.size(); ++i) same = std::equal(g[i].begin(), g[i].end(), x.graph()[i].begin(), x.graph()[i].end());
      VF_CHECK(same, "graph:misread", why, ": what is read is not what the file says");
    }
  } catch (const std::exception &) {}
  VF_CHECK(opened == good, "graph:verdict", why, opened ? ": a damaged graph is accepted" : ": a sound graph is refused");
  greedy("graph", why);
  count(opened ? "sound_graphs" : "refused_graphs");
  eval();
  distinct(Hash().add(b).get());
}
static void graphs(uint64_t ci, Rng &r) {
  Tmp t("graph");
  auto p = t.p / "g.index";
  size_t n = static_cast<size_t>(r.range(2, 14));
  uint32_t deg = 0;
  Graph g(n);
  for (size_t i = 0; i < n; ++i) {
    size_t k = static_cast<size_t>(r.range(1, 6));
    for (size_t j = 0; j < k; ++j) { auto x = static_cast<uint32_t>(r.below(n - 1)); g[i].push_back(x >= i ? x + 1 : x); }
    deg = std::max<uint32_t>(deg, static_cast<uint32_t>(k));
  }
  alaya::vamana::save_graph(g, p, deg, static_cast<uint32_t>(r.below(n)));
  Bytes good = whole(p);
  offer_graph(p, good, "as written");
  {
    Graph h;
    uint32_t a, b;
    VF_CHECK(parse_graph(good, h, a, b) && h == g, "graph:written", "a graph of ", n, " nodes is not written as it is");
  }
  for (size_t k = 0; k <= good.size(); ++k) offer_graph(p, good.substr(0, k), cat("cut to ", k, " of ", good.size()));
  for (size_t k = 0; k <= good.size(); ++k) {  // cut, with the size in the header to match
    auto b = good.substr(0, k);
    put<uint64_t>(b, 0, k);
    offer_graph(p, b, cat("cut to ", k, " of ", good.size(), " and said so"));
  }
  for (size_t k = 0; k < good.size(); ++k) {
    auto b = good;
    b[k] = static_cast<char>(b[k] ^ (1 << r.below(8)));
    offer_graph(p, b, cat("bit at ", k));
  }
  for (int k = 0; k < 150; ++k) {
    auto b = good;
    std::string why;
    for (uint64_t c = r.range(1, 3); c > 0; --c) why += alter(r, b, 200) + "; ";
    if (r.chance(0.6)) put<uint64_t>(b, 0, b.size()), why += "size to match";
    offer_graph(p, b, why);
  }
  if (ci == 0) sample(cat("a graph of ", n, " nodes in ", good.size(), " bytes: every length, a bit of every byte, 150 other changes"));
}

// ---------------------------------------------------------------- disk collections
using namespace alaya::disk;
using alaya::MetricType;
static std::string change_text(Rng &r, Bytes &b) {  // a manifest
  std::vector<std::string> l;
  std::istringstream in(b);
  for (std::string x; std::getline(in, x);) l.push_back(x);
  static const std::vector<std::string> vals = {"", "0", "1", "2", "3", "7", "8", "64", "255", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "9223372036854775808", "4611686018427387904", "-1", "+4", " 4", "4 ", "0x4", "4.0", "1e3", "L2", "IP",
    "COS", "NONE", "l2", "disk_flat", "disk_vamana", "disk_laser", "flat", "seg_00000001", "seg_00000002", "seg_00000009", "seg_1", "../seg_00000001", "ids.u64.bin", "vectors.f32.bin", "graph.index", "manifest.txt", "../../collection_manifest.txt", "/etc/passwd", ".", "..", "nan", "inf", "seg_00000001,seg_00000002", "seg_00000001,seg_00000001"};
  std::string why;
  if (l.empty()) return "nothing";
  size_t k = r.below(l.size());
  auto eq = l[k].find('=');
  switch (r.below(8)) {
    case 0: why = "without " + l[k], l.erase(l.begin() + static_cast<long>(k)); break;
    case 1: why = "twice " + l[k], l.push_back(l[k]); break;
    case 2: case 3: case 4: case 5: if (eq != std::string::npos) { l[k] = l[k].substr(0, eq + 1) + vals[r.below(vals.size())]; } why = l[k]; break;
    case 6: { static const char *keys[] = {"version", "dim", "count", "metric", "index_type", "segment", "segments", "ids_file", "vectors_file", "x_graph_file", "x_vamana_R", "x_vamana_L", "x_vamana_alpha", "x_vamana_seed", "x_max_pending_bytes", "next_segment_id", "x_other", "other"};
      l.push_back(std::string(keys[r.below(std::size(keys))]) + "=" + vals[r.below(vals.size())]), why = "also " + l.back(); break; }
    default: { size_t j = r.below(l.size()); std::swap(l[k], l[j]); if (r.chance(0.5) && !l[j].empty()) { l[j][r.below(l[j].size())] = static_cast<char>(r.below(256)); } why = cat("lines ", k, " and ", j, " changed"); }
  }
  b.clear();
  for (auto &x : l) b += x + "\n";
  return why;
}
struct Made { fs::path path; uint32_t dim; size_t rows; DiskIndexType type; MetricType metric; };
static Made make(Rng &r, const fs::path &p, bool vamana, uint32_t dim, int segs) {
  Made m{p, dim, 0, vamana ? DiskIndexType::Vamana : DiskIndexType::Flat, vamana ? MetricType::L2 : std::array{MetricType::L2, MetricType::IP, MetricType::COS}[r.below(3)]};
  VamanaSegmentBuildParams vp;
  vp.R = 8, vp.L = 16, vp.num_threads = 1;
  DiskCollection col(p, dim, m.metric, m.type, 1 << 20, vp);
  for (int s = 0; s < segs; ++s) {
    size_t n = static_cast<size_t>(r.range(2, r.chance(0.3) ? 150 : 40));
    Vec v(n * dim);
    for (auto &x : v) x = static_cast<float>(r.gauss());
    std::vector<uint64_t> l(n);
    for (auto &x : l) x = 1000 + m.rows++;
    col.add_batch(v.data(), l.data(), n);
    col.flush();
  }
  return m;
}
static void copy_dir(const fs::path &a, const fs::path &b) {
  std::error_code ec;
  fs::remove_all(b, ec);
  fs::copy(a, b, fs::copy_options::recursive);
}
// every label that any file of the collection holds, and how often
static std::map<uint64_t, int> labels_in(const fs::path &p) {
  std::map<uint64_t, int> s;
  for (auto &e : fs::recursive_directory_iterator(p))
    if (fs::is_regular_file(e.symlink_status()) && e.path().filename() != ".lock" && e.path().extension() != ".txt") {
      Bytes b = whole(e.path());
      for (size_t o = 0; o + 8 <= b.size(); o += 8) s[at<uint64_t>(b, o)]++;
    }
  return s;
}
static void offer_collection(Rng &r, const fs::path &p, bool may_build, const std::string &why) {
  auto labels = labels_in(p);
  bool opened = false;
  try {
    auto col = DiskCollection::open(p);
    opened = true;
    // The caller gives vectors of the dimension the collection says it has
    uint32_t d = col.dim();
    VF_CHECK(d <= 100000, "segment:dim", why, ": opened with dimension ", d);
    if (d > 100000) return;
    uint64_t rows = col.size();
    for (int k = 0; k < 4; ++k) {
      Vec q(std::max<uint32_t>(d, 1));
      for (auto &x : q) x = static_cast<float>(r.gauss());
      DiskSearchOptions o;
      o.top_k = static_cast<uint32_t>(std::array{1, 3, 17, 60, 200}[r.below(5)]), o.ef = static_cast<uint32_t>(r.range(1, 80));
      try {
        auto hits = col.search(q.data(), o);
        VF_CHECK(hits.size() <= o.top_k && hits.size() <= rows, "segment:count", why, ": ", hits.size(), " hits for k=", o.top_k, " over ", rows, " rows");
        std::map<uint64_t, int> seen;
        for (auto &h : hits) {
          VF_CHECK(labels.contains(h.label), "segment:label", why, ": label ", h.label, " is in no file");
          VF_CHECK(++seen[h.label] <= labels[h.label], "segment:twice", why, ": label ", h.label, " is returned more often than it is stored");
        }
        count("searches_of_altered");
      } catch (const std::exception &) { count("refused_searches"); }
    }
    if (may_build) try {
      Vec v(2 * d, 0.5f);
      std::array<uint64_t, 2> l{777777, 777778};
      col.add_batch(v.data(), l.data(), 2);
      col.flush();
    } catch (const std::exception &) {}
  } catch (const std::exception &) {}
  greedy("segment", why);
  count(opened ? "opened_collections" : "refused_collections");
  eval();
}
static void segments(uint64_t ci, Rng &r) {
  Tmp t("seg");
  bool vam = ci % 2;
  uint32_t dim = static_cast<uint32_t>(std::array{1, 3, 4, 8, 16, 17, 33}[r.below(7)]);
  auto m = make(r, t.p / "col", vam, dim, 2);
  auto other = make(r, t.p / "other", r.chance(0.5), static_cast<uint32_t>(std::array{2, 5, 64}[r.below(3)]), 2);
  auto p = t.p / "try";
  copy_dir(m.path, p);
  offer_collection(r, p, true, "unaltered");
  std::vector<fs::path> files;
  for (auto &e : fs::recursive_directory_iterator(m.path)) if (e.is_regular_file() && e.path().filename() != ".lock") files.push_back(fs::relative(e.path(), m.path));
  std::sort(files.begin(), files.end());
  for (int k = 0; k < 130; ++k) {
    copy_dir(m.path, p);
    std::string why = vam ? "vamana " : "flat ";
    Hash h;
    for (uint64_t c = r.chance(0.7) ? 1 : 2; c > 0; --c) {
      auto f = p / files[r.below(files.size())];
      bool text = f.extension() == ".txt";
      why += fs::relative(f, p).string() + " ";
      std::error_code ec;
      int how = static_cast<int>(r.below(20));
      if (how == 0) { fs::remove(f, ec), why += "removed; "; }
      else if (how == 1) { fs::remove(f, ec), fs::create_directory(f), why += "a directory; "; }
      else if (how == 2) { fs::remove(f, ec), fs::create_symlink(m.path / fs::relative(f, p), f, ec), why += "a link; "; }
      else if (how < 6) {  // a sound file of another collection or segment
        auto g = files[r.below(files.size())];
        auto src = r.chance(0.5) ? m.path / g : (fs::exists(other.path / g) ? other.path / g : m.path / g);
        if (fs::is_directory(f, ec) || fs::is_symlink(f)) continue;
        if (fs::exists(src)) fs::copy_file(src, f, fs::copy_options::overwrite_existing, ec);
        why += "replaced by " + src.filename().string() + " of " + src.parent_path().parent_path().filename().string() + "; ";
      } else {
        if (!fs::is_regular_file(fs::symlink_status(f))) continue;
        Bytes b = whole(f);
        why += (text && r.chance(0.8) ? change_text(r, b) : alter(r, b)) + "; ";
        h.add(b);
        dump(f, b);
      }
    }
    progress(why);
    // (what is asked of the graph builder in the collection's manifest is the user's own business)
    offer_collection(r, p, !vam || why.find("collection_manifest") == std::string::npos, why);
    distinct(h.add(why).get());
  }
  if (ci < 2) sample(cat(vam ? "vamana" : "flat", " collection of dimension ", dim, ", ", files.size(), " files: 130 alterations"));
}

// ---------------------------------------------------------------- DiskANN directories
using namespace alaya::diskann;
static void offer_diskann(Rng &r, const fs::path &p, uint64_t dim, const std::string &why) {
  Bytes ids = whole(p / "ids.bin");
  std::set<uint64_t> labels{DiskANNIndex::kNoLabel};
  for (size_t o = 8; o + 8 <= ids.size(); o += 8) labels.insert(at<uint64_t>(ids, o));
  bool opened = false, upd = r.chance(0.4);
  try {
    DiskANNIndex x;
    DiskANNLoadParams lp;
    lp.num_threads = 2, lp.updatable = upd;
    if (getenv("VF_NO_URING")) lp.update_io = DiskANNUpdateIO::kBlocking;
    x.load(p.string(), lp);
    opened = true;
    if (x.dim() != dim) {  // the caller would give vectors of that dimension
      VF_CHECK(x.dim() < 1u << 20, "diskann:dim", why, ": opened with dimension ", x.dim());
      if (x.dim() >= 1u << 20) return;
    }
    for (int k = 0; k < 4; ++k) {
      Vec q(x.dim());
      for (auto &v : q) v = static_cast<float>(r.gauss());
      DiskANNSearchParams sp;
      sp.search_list_size = static_cast<uint32_t>(r.range(1, 60)), sp.deterministic = r.chance(0.5), sp.rerank = r.chance(0.7);
      uint32_t top = static_cast<uint32_t>(r.range(1, 30));
      std::vector<uint64_t> l(top + 1, 4242);
      Vec d(top + 1, -7.f);
      try {
        auto n = x.search(q.data(), top, l.data(), d.data(), sp);
        VF_CHECK(n <= top && l[top] == 4242, "diskann:count", why, ": ", n, " hits for k=", top);
        for (uint32_t i = 0; i < std::min(n, top); ++i) VF_CHECK(labels.contains(l[i]), "diskann:label", why, ": label ", l[i], " is in no file");
        count("searches_of_altered");
      } catch (const std::exception &) { count("refused_searches"); }
    }
    if (upd) {
      try {
        for (int k = 0; k < 5; ++k) {
          Vec v(x.dim());
          for (auto &f : v) f = static_cast<float>(r.gauss());
          if (k % 2 == 0) x.insert(v.data(), 5000000 + static_cast<uint64_t>(k));
          else { auto it = std::next(labels.begin(), static_cast<long>(r.below(labels.size()))); if (*it != DiskANNIndex::kNoLabel) x.remove_by_label(*it); }
        }
        x.flush();
        count("updates_of_altered");
      } catch (const std::exception &) { count("refused_updates"); }
    }
  } catch (const std::exception &) {}
  greedy("diskann", why);
  count(opened ? "opened_indexes" : "refused_indexes");
  eval();
}
static void build_diskann(Rng &r, const fs::path &p, size_t n, size_t dim, bool pq, double cache, bool churn) {
  Vec v(n * dim);
  for (auto &x : v) x = static_cast<float>(r.gauss());
  std::vector<uint64_t> l(n);
  std::iota(l.begin(), l.end(), 900);
  DiskANNBuildParams bp;
  bp.R = 8, bp.L = 20, bp.num_threads = 1, bp.cache_ratio = cache, bp.pq_n_chunks = pq ? static_cast<uint32_t>(dim / 4) : 0, bp.pq_train_iters = 2;
  DiskANNIndex::build(p.string(), v.data(), l.data(), n, dim, bp);
  if (churn) {
    DiskANNIndex x;
    DiskANNLoadParams lp;
    lp.updatable = true;
    if (getenv("VF_NO_URING")) lp.update_io = DiskANNUpdateIO::kBlocking;
    x.load(p.string(), lp);
    for (size_t i = 0; i < n / 4; ++i) x.remove_by_label(l[i * 3]);
    for (size_t i = 0; i < 5; ++i) x.insert(v.data() + i * dim, 3000 + i);
    x.flush();
  }
}
static void diskann(uint64_t ci, Rng &r) {
  Tmp t("dann");
  bool pq = ci % 2;
  size_t dim = static_cast<size_t>(std::array{4, 8, 24, 600}[r.below(4)]), n = static_cast<size_t>(pq ? r.range(260, 300) : r.range(10, 60));
  build_diskann(r, t.p / "i", n, dim, pq, r.chance(0.5) ? 0.3 : 0, r.chance(0.5));
  build_diskann(r, t.p / "j", n + 7, dim == 8 ? 24 : 8, pq, 0.2, false);
  auto p = t.p / "try";
  copy_dir(t.p / "i", p);
  offer_diskann(r, p, dim, "unaltered");
  std::vector<fs::path> files;
  for (auto &e : fs::directory_iterator(t.p / "i")) if (e.is_regular_file()) files.push_back(e.path().filename());
  std::sort(files.begin(), files.end());
  for (int k = 0; k < 70; ++k) {
    copy_dir(t.p / "i", p);
    std::string why = cat("n=", n, " dim=", dim, pq ? " pq " : " ");
    Hash h;
    for (uint64_t c = r.chance(0.7) ? 1 : 2; c > 0; --c) {
      auto f = p / files[r.below(files.size())];
      why += f.filename().string() + " ";
      std::error_code ec;
      int how = static_cast<int>(r.below(20));
      if (how == 0) { fs::remove(f, ec), why += "removed; "; }
      else if (how == 1) { auto s = t.p / "j" / f.filename(); if (fs::exists(s)) fs::copy_file(s, f, fs::copy_options::overwrite_existing, ec); why += "of another index; "; }
      else {
        Bytes b = whole(f);
        if (f.filename() == "diskann.index" && r.chance(0.6)) {  // inside the node records: counts and neighbours
          auto g = DiskLayoutGeometry::compute(dim, at<uint32_t>(b, 20));
          uint64_t id = r.chance(0.3) ? at<uint32_t>(b, 16) : r.below(n), o = g.file_offset(id) + 4 * dim;
          static const uint32_t c[] = {0, 9, 100, 5000, 0x7fffffff, 0xffffffff};
          if (r.chance(0.5)) { auto v = c[r.below(6)]; put<uint32_t>(b, o, v), why += cat("node ", id, " has ", v, " neighbours; "); }
          else for (int e = 0; e < 8; ++e) { auto v = r.chance(0.5) ? static_cast<uint32_t>(n + r.below(200)) : static_cast<uint32_t>(r.next()); put<uint32_t>(b, o + 4 + static_cast<uint64_t>(e) * 4, v), why += cat("node ", id, " points to ", v, "; "); }
        } else {
          why += alter(r, b) + "; ";
        }
        h.add(b);
        dump(f, b);
      }
    }
    progress(why);
    offer_diskann(r, p, dim, why);
    distinct(h.add(why).get());
  }
  if (ci < 2) sample(cat("DiskANN index of ", n, " vectors of dimension ", dim, pq ? " with codes" : "", ", ", files.size(), " files: 70 alterations"));
}
// the header sector, against what it must say
static void headers(uint64_t, Rng &r) {
  Tmp t("hdr");
  auto p = t.p / "x.index";
  size_t n = static_cast<size_t>(r.range(1, 30)), dim = static_cast<size_t>(std::array{1, 7, 64, 1200}[r.below(4)]);
  uint32_t R = static_cast<uint32_t>(r.range(1, 12));
  Vec v(n * dim, 1.f);
  Graph g(n);
  WriteDiskLayoutParams wp;
  wp.num_points = n, wp.dim = dim, wp.max_degree = R, wp.medoid = static_cast<uint32_t>(r.below(n));
  write_disk_layout(p.string(), v.data(), g, wp);
  Bytes good = whole(p);
  for (int k = 0; k < 60; ++k) {
    auto b = good;
    std::string why = k ? alter(r, b, 56) : "as written";
    dump(p, b);
    bool opened = false, sound = b.size() >= 4096;
    if (sound) {
      __uint128_t N = at<uint64_t>(b, 0), D = at<uint64_t>(b, 8), M = at<uint32_t>(b, 16), deg = at<uint32_t>(b, 20), len = D * 4 + 4 + deg * 4;
      sound = N && D && D < (1ULL << 60) && M < N && at<uint64_t>(b, 24) == len;
      if (sound) {
        __uint128_t per = std::max<__uint128_t>(1, 4096 / len), page = (per * len + 4095) / 4096 * 4096, pages = (N + per - 1) / per, total = 4096 + pages * page;
        sound = at<uint64_t>(b, 32) == per && at<uint64_t>(b, 40) == total && total == b.size();
      }
    }
    try {
      auto h = read_disk_layout_header(p.string());
      opened = true;
      VF_CHECK(h.num_points == at<uint64_t>(b, 0) && h.dim == at<uint64_t>(b, 8) && h.medoid == at<uint32_t>(b, 16) && h.max_degree == at<uint32_t>(b, 20), "header:misread", why);
    } catch (const std::exception &) {}
    VF_CHECK(opened == sound, "header:verdict", why, " n=", n, " dim=", dim, opened ? ": a damaged header is accepted" : ": a sound header is refused");
    eval(), count(opened ? "sound_headers" : "refused_headers");
    distinct(Hash().add(b).get());
  }
}

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  init(argc, argv);
  auto &m = ctx().mode;
  if (m == "graphs") cases("graphs", tiered(24, 300), graphs);
  else if (m == "segments") cases("segments", tiered(24, 400), segments);
  else if (m == "diskann") cases("headers", tiered(20, 200), headers), cases("diskann", tiered(24, 400), diskann);
  return finish();
}
