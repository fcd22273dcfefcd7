// P19: LASER indexes: what a build writes, what a search returns, and what an import into a disk collection keeps.
#include <sys/mman.h>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <optional>
#include <set>
#include <thread>

#include "crash.hpp"
#include "gen.hpp"
#include "index/disk/disk_collection.hpp"
#include "index/graph/laser/qg/qg.hpp"
#include "index/graph/laser/qg/qg_builder.hpp"
#include "index/graph/laser/utils/pca_transform.hpp"
#include "index/graph/vamana/vamana_builder.hpp"
#include "index/graph/vamana/vamana_writer.hpp"
#include "main.hpp"

namespace fs = std::filesystem;
using namespace alaya::disk;
using namespace alaya::laser;
using alaya::MetricType;

namespace {

struct Quiet {  // the library reports its progress on stdout
  Quiet() { std::cout.rdbuf(nullptr), std::cerr.rdbuf(nullptr); }
} quiet;

std::string slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spit(const fs::path &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), static_cast<std::streamsize>(s.size()));
}
template <class T>
T get(const std::string &s, size_t at) {
  T v{};
  if (at + sizeof v <= s.size()) std::memcpy(&v, s.data() + at, sizeof v);
  return v;
}
template <class T>
void put(std::string &s, T v) {
  s.append(reinterpret_cast<const char *>(&v), sizeof v);
}
template <class F>
std::string refusal(F &&f) {
  try {
    f();
  } catch (const std::exception &e) {
    return std::string("x") + e.what();
  }
  return "";
}

using Adj = std::vector<std::vector<uint32_t>>;

struct Index {
  uint32_t n = 0, R = 64, md = 128, res = 0;
  std::vector<float> raw;   // the user's vectors
  std::vector<float> x;     // what was indexed: raw, or its PCA image
  Adj g;
  uint32_t start = 0;
  std::vector<uint32_t> medoids;
  std::optional<PCATransform> pca;
  fs::path prefix;
  bool duplicates = false;
  uint32_t dim() const { return md + res; }
  const float *row(uint32_t i) const { return x.data() + size_t{i} * dim(); }
  std::string index_file() const { return prefix.string() + "_R" + std::to_string(R) + "_MD" + std::to_string(md) + ".index"; }
  size_t node_len() const { return (32 * size_t{md} + 32 * size_t{res} + 128 * size_t{R} + size_t{R} * md) / 8; }
  size_t per_page() const { return std::max<size_t>(1, 4096 / node_len()); }
  size_t page() const { return (per_page() * node_len() + 4095) / 4096 * 4096; }
  size_t at(uint32_t i) const { return 4096 + page() * (i / per_page()) + (i % per_page()) * node_len(); }
};

double sq(const float *a, const float *b, size_t d) {
  double s = 0;
  for (size_t i = 0; i < d; ++i) s += (double(a[i]) - b[i]) * (double(a[i]) - b[i]);
  return s;
}

struct Shape {
  bool importable = false;   // no residual dimensions, at least 128 of them
  bool wide = false;         // also indices with PCA, medoids
  uint32_t max_n = 160;
};

Index draw(pbt::Case &c, const Shape &s) {
  Index t;
  t.R = c.flip() ? 64 : 32;
  t.md = s.importable ? (c.chance(1, 4) ? 256 : 128) : c.pick({64u, 128u, 64u, 256u});
  t.res = s.importable || c.flip() ? 0 : static_cast<uint32_t>(c.chance(1, 2) ? 1 + c.raw(19) : 16 * (1 + c.raw(4)));
  t.n = static_cast<uint32_t>(2 + c.raw(c.flip() ? 20 : s.max_n));
  int family = static_cast<int>(c.raw(3));
  pbt::Rng r(c.seed());
  size_t dim = t.dim();
  t.raw.resize(size_t{t.n} * dim);
  size_t distinct = family == 2 ? 1 + r.below(t.n) : t.n;
  size_t live = family == 3 ? 1 + r.below(dim) : dim;   // other dimensions are constant
  for (uint32_t i = 0; i < t.n; ++i) {
    float *v = t.raw.data() + i * dim;
    if (i >= distinct) {
      std::memcpy(v, t.raw.data() + r.below(distinct) * dim, dim * sizeof(float));
      continue;
    }
    for (size_t j = 0; j < dim; ++j) v[j] = j >= live ? 0.0f : family == 0 ? static_cast<float>(r.range(-9, 9)) : static_cast<float>(r.range(-400, 400)) / 8;
  }
  for (uint32_t i = 0; i < t.n && !t.duplicates; ++i)
    for (uint32_t j = 0; j < i && !t.duplicates; ++j) t.duplicates = !std::memcmp(t.raw.data() + i * dim, t.raw.data() + j * dim, dim * sizeof(float));
  t.x = t.raw;
  if (s.wide && t.n > 2 && dim <= 150 && c.chance(1, 3)) {
    t.pca.emplace(dim);
    t.pca->train(t.raw.data(), t.n);
    for (uint32_t i = 0; i < t.n; ++i) t.pca->transform(t.raw.data() + i * dim, t.x.data() + i * dim);
  }
  // The graph: built over the vectors, or drawn.
  if (c.chance(2, 3)) {
    alaya::vamana::VamanaBuildParams p;
    p.R = c.flip() ? t.R : static_cast<uint32_t>(4 + c.raw(t.R - 4)), p.L = p.R + 10, p.num_threads = 1;
    alaya::vamana::VamanaBuilder b(t.x.data(), t.n, static_cast<uint32_t>(dim), p);
    b.build();
    t.g = b.graph();
    t.start = b.medoid();
  } else {
    t.g.resize(t.n);
    t.start = static_cast<uint32_t>(r.below(t.n));
    size_t most = std::min<size_t>(t.R, t.n - 1), deg = 1 + r.below(std::min<size_t>(most, 1 + r.below(most)));
    for (uint32_t i = 0; i < t.n; ++i) {
      std::set<uint32_t> nb;
      size_t k = c.chance(1, 12) ? 0 : r.below(4) ? deg : 1 + r.below(most);
      while (nb.size() < k) {
        auto y = static_cast<uint32_t>(r.below(t.n));
        if (y != i) nb.insert(y);
      }
      t.g[i].assign(nb.begin(), nb.end());
      for (size_t j = t.g[i].size(); j > 1; --j) std::swap(t.g[i][j - 1], t.g[i][r.below(j)]);
    }
  }
  if (s.wide && c.chance(1, 3)) {
    size_t m = 1 + r.below(std::min<size_t>(t.n, 6));
    std::set<uint32_t> ids;
    while (ids.size() < m) ids.insert(static_cast<uint32_t>(r.below(t.n)));
    t.medoids.assign(ids.begin(), ids.end());
  }
  c.note(t.n, " vectors of dim ", t.md, "+", t.res, ", R ", t.R, ", family ", family, t.pca ? ", PCA" : "", ", ", t.medoids.size(), " medoids");
  return t;
}

void write_inputs(const Index &t) {
  std::string s;
  put(s, static_cast<int>(t.n)), put(s, static_cast<int>(t.dim()));
  s.append(reinterpret_cast<const char *>(t.x.data()), t.x.size() * sizeof(float));
  spit(t.prefix.string() + "_pca_base.fbin", s);
  alaya::vamana::save_graph(t.g, t.prefix.string() + "_vamana", t.R, t.start);
  if (t.pca) t.pca->save(t.prefix.string() + "_pca.bin");
  if (!t.medoids.empty()) {
    std::string ids, vecs;
    put(ids, static_cast<int>(t.medoids.size())), put(ids, 1);
    put(vecs, static_cast<int>(t.medoids.size())), put(vecs, static_cast<int>(t.dim()));
    for (auto m : t.medoids) put(ids, m), vecs.append(reinterpret_cast<const char *>(t.row(m)), t.dim() * sizeof(float));
    spit(t.prefix.string() + "_medoids_indices", ids);
    spit(t.prefix.string() + "_medoids", vecs);
  }
}

std::string build(Index &t, const fs::path &dir, const std::string &name, uint64_t seed, size_t threads) {
  fs::create_directories(dir);
  t.prefix = dir / name;
  write_inputs(t);
  return refusal([&] {
    QuantizedGraph qg(t.n, t.R, t.md, t.dim(), seed);
    QGBuilder b(qg, 64, threads);
    b.build((t.prefix.string() + "_vamana").c_str(), t.prefix.c_str());
  });
}

// The ids a search can reach from its starting points: the graph's entry and the medoid nearest to the query.
std::optional<std::vector<char>> reached(const Index &t, const float *q) {
  std::vector<char> seen(t.n, 0);
  std::vector<uint32_t> todo{t.start};
  seen[t.start] = 1;
  auto close = [&] {
    while (!todo.empty()) {
      auto y = todo.back();
      todo.pop_back();
      for (auto z : t.g[y])
        if (!seen[z]) seen[z] = 1, todo.push_back(z);
    }
  };
  close();
  if (!t.medoids.empty()) {
    double best = 1e300, second = 1e300;
    uint32_t id = 0;
    for (auto m : t.medoids) {
      double d = sq(q, t.row(m), t.md);
      if (d < best)
        second = best, best = d, id = m;
      else
        second = std::min(second, d);
    }
    bool unclear = second - best < 1e-3 * (1 + best);
    if (unclear)
      for (auto m : t.medoids)
        if (!seen[m] && sq(q, t.row(m), t.md) < best + 1e-2 * (1 + best)) return {};
    if (!seen[id]) seen[id] = 1, todo.push_back(id), close();
  }
  return seen;
}

std::vector<float> draw_query(const Index &t, pbt::Rng &r) {
  std::vector<float> q(t.dim());
  if (r.below(3) == 0) {
    auto *v = t.raw.data() + r.below(t.n) * t.dim();
    q.assign(v, v + t.dim());
    if (r.below(2)) q[r.below(q.size())] += 1;
  } else {
    for (auto &f : q) f = static_cast<float>(r.range(-12, 12));
  }
  return q;
}

// Results of one search: distinct ids of the index, by ascending true distance, and when the search was wide enough to
// see everything it can reach, exactly the nearest of those.
void judge(pbt::Case &c, const Index &t, const float *q, const std::vector<uint32_t> &got, bool everything, const std::string &what) {
  std::vector<float> image(q, q + t.dim());
  if (t.pca) t.pca->transform(q, image.data());
  auto dist = [&](uint32_t i) { return sq(image.data(), t.row(i), t.dim()); };
  double scale = 1;
  for (uint32_t i = 0; i < t.n; ++i) scale = std::max(scale, dist(i));
  double eps = 1e-5 * scale;
  std::set<uint32_t> seen;
  size_t valid = 0;
  while (valid < got.size() && got[valid] < t.n) ++valid;
  for (size_t i = 0; i < got.size(); ++i) {
    c.check((got[i] < t.n) == (i < valid), what, ": position ", i, " holds ", got[i], " among ", valid, " results");
    if (i >= valid) continue;
    c.check(seen.insert(got[i]).second, what, ": id ", got[i], " is returned twice");
    if (i) c.check(dist(got[i - 1]) <= dist(got[i]) + eps, what, ": result ", i, " at ", dist(got[i]), " follows one at ", dist(got[i - 1]));
  }
  if (!everything) return;
  auto r = reached(t, image.data());
  if (!r) return;
  std::vector<double> all;
  for (uint32_t i = 0; i < t.n; ++i)
    if ((*r)[i]) all.push_back(dist(i));
  std::sort(all.begin(), all.end());
  c.check(valid == std::min(got.size(), all.size()), what, ": ", valid, " results for k ", got.size(), " with ", all.size(), " reachable");
  for (size_t i = 0; i < valid; ++i) {
    c.check((*r)[got[i]], what, ": id ", got[i], " cannot be reached");
    c.check(std::abs(dist(got[i]) - all[i]) <= eps, what, ": result ", i, " is at ", dist(got[i]), ", the true one at ", all[i]);
  }
}

size_t everything_ef(const Index &t) { return size_t{t.n} * t.R + 10; }

}  // namespace

// ---- what a build writes ----------------------------------------------------------------------------------------
PBT(build_files, "several pages, and a vertex with fewer links than the bound", 120, 4000, pbt::Opts{.hang_s = 120}) {
  Shape s;
  s.wide = true;
  auto t = draw(c, s);
  uint64_t seed = 1 + c.raw(1000);
  auto err = build(t, c.dir() / "a", "dsqg_x", seed, 1 + c.raw(3));
  c.check(err.empty(), "the build failed: ", err);
  auto f = slurp(t.index_file());
  size_t pages = (t.n + t.per_page() - 1) / t.per_page();
  c.check(f.size() == 4096 + pages * t.page(), "the index has ", f.size(), " bytes, expected ", 4096 + pages * t.page());
  c.check(get<uint64_t>(f, 0) == t.n && get<uint64_t>(f, 8) == t.md && get<uint64_t>(f, 16) == t.start && get<uint64_t>(f, 24) == t.node_len() &&
              get<uint64_t>(f, 32) == t.per_page() && get<uint64_t>(f, 64) == f.size(),
          "the header describes another index");
  size_t factors = (t.dim() + t.md / 32 * t.R) * 4, links = factors + 12 * size_t{t.R};
  std::vector<uint32_t> in(t.n, 0);
  bool few = false;
  for (uint32_t i = 0; i < t.n; ++i) {
    c.check(!std::memcmp(f.data() + t.at(i), t.row(i), t.dim() * 4), "the vector of node ", i, " is not the one given (", t.g[i].size(), " links)");
    for (size_t j = 0; j < t.g[i].size(); ++j) {
      auto y = get<uint32_t>(f, t.at(i) + links + 4 * j);
      c.check(y == t.g[i][j], "link ", j, " of node ", i, " goes to ", y, " instead of ", t.g[i][j]);
      ++in[y];
      for (int k = 0; k < 3; ++k) {
        auto v = get<float>(f, t.at(i) + factors + 4 * (size_t{t.R} * k + j));
        c.check(std::isfinite(v), "factor ", k, " of link ", j, " of node ", i, " is ", v, " (neighbour at distance ", sq(t.row(i), t.row(y), t.md), ")");
      }
    }
    for (size_t j = t.g[i].size(); j < t.R; ++j) {
      auto y = get<uint32_t>(f, t.at(i) + links + 4 * j);
      c.check(y < t.n, "unused link ", j, " of node ", i, " goes to ", y);
    }
    few = few || t.g[i].size() < t.R;
  }
  // The cache: the most linked-to nodes, with their bytes.
  auto ids = slurp(t.index_file() + "_cache_ids"), nodes = slurp(t.index_file() + "_cache_nodes");
  auto k = get<uint64_t>(ids, 0);
  c.check(k == static_cast<uint64_t>(double(t.n) * 0.15f), k, " nodes are cached of ", t.n);
  c.check(ids.size() == 8 + 4 * k && get<uint64_t>(nodes, 0) == k && get<uint64_t>(nodes, 8) == t.node_len() && nodes.size() == 16 + k * t.node_len(), "the cache files' sizes are wrong");
  std::set<uint32_t> cached;
  uint32_t least = UINT32_MAX;
  for (size_t j = 0; j < k; ++j) {
    auto id = get<uint32_t>(ids, 8 + 4 * j);
    c.check(id < t.n && cached.insert(id).second, "cached id ", id, " is invalid or repeated");
    c.check(!std::memcmp(nodes.data() + 16 + j * t.node_len(), f.data() + t.at(id), t.node_len()), "the cached bytes of node ", id, " differ from the index");
    least = std::min(least, in[id]);
  }
  for (uint32_t i = 0; i < t.n; ++i) c.check(k == 0 || cached.contains(i) || in[i] <= least, "node ", i, " with ", in[i], " in-links is not cached, one with ", least, " is");
  for (auto &e : fs::directory_iterator(c.dir() / "a")) c.check(e.path().filename().string().find("_tmp") == std::string::npos, "temporary file ", e.path().filename(), " left");
  // The same seed gives the same files, with any number of threads.
  auto t2 = t;
  build(t2, c.dir() / "b", "dsqg_x", seed, 1 + c.raw(3));
  for (auto suffix : {"", "_rotator", "_cache_ids", "_cache_nodes"}) c.check(slurp(t.index_file() + suffix) == slurp(t2.index_file() + suffix), "a second build writes another index", suffix, " file");
  c.nontrivial(pages > 2 && few);
}

// ---- searching --------------------------------------------------------------------------------------------------
PBT(search_everything, "more than one page read, more reachable vectors than k", 150, 5000, pbt::Opts{.hang_s = 60}) {
  Shape s;
  s.wide = true;
  auto t = draw(c, s);
  auto err = build(t, c.dir(), "dsqg_x", c.raw(3), 1 + c.raw(2));
  c.check(err.empty(), "the build failed: ", err);
  QuantizedGraph qg(t.n, t.R, t.md, t.dim(), 0);
  float budget = c.flip() ? 1.0f : c.flip() ? 0.0f : static_cast<float>(c.raw(200)) * 1e-6f;
  qg.load_disk_index(t.prefix.c_str(), budget);
  pbt::Rng r(c.seed());
  size_t rounds = 1 + c.raw(2);
  for (size_t round = 0; round < rounds; ++round) {
    size_t threads = 1 + c.raw(3), beam = c.pick({1, 2, 3, 4, 8, 16, 33});
    bool everything = c.chance(2, 3);
    uint32_t k = static_cast<uint32_t>(c.chance(1, 4) ? t.n : 1 + c.raw(t.n - 1));
    if (c.chance(1, 8)) k += 3;
    size_t ef = everything ? everything_ef(t) : std::max<size_t>(k, 1 + c.raw(t.n));
    c.note("budget ", budget, " threads ", threads, " beam ", beam, " ef ", ef, " k ", k);
    qg.set_params(ef, threads, static_cast<int>(beam));
    size_t nq = 1 + c.raw(6);
    std::vector<float> qs;
    std::vector<std::vector<uint32_t>> one;
    for (size_t i = 0; i < nq; ++i) {
      auto q = draw_query(t, r);
      qs.insert(qs.end(), q.begin(), q.end());
      std::vector<uint32_t> got(k, 0xdeadbeef);
      qg.search(q.data(), k, got.data());
      judge(c, t, q.data(), got, everything, "search " + std::to_string(i));
      one.push_back(got);
    }
    std::vector<uint32_t> out(nq * k, 0xdeadbeef);
    qg.batch_search(qs.data(), k, out.data(), nq);
    for (size_t i = 0; i < nq; ++i) {
      std::vector<uint32_t> got(out.begin() + i * k, out.begin() + (i + 1) * k);
      judge(c, t, qs.data() + i * t.dim(), got, everything, "batch query " + std::to_string(i));
    }
    if (everything && t.n > t.per_page() && k < t.n) c.nontrivial(true);
  }
}

// Ordinary widths on a built graph: most of the true neighbours are found.
PBT(search_quality, "more vectors than the search width", 16, 300, pbt::Opts{.hang_s = 120}) {
  Index t;
  t.R = c.flip() ? 64 : 32, t.md = c.flip() ? 128 : 64, t.res = c.flip() ? 0 : 16;
  t.n = static_cast<uint32_t>(300 + c.raw(700));
  pbt::Rng r(c.seed());
  size_t dim = t.dim();
  t.raw.resize(t.n * dim);
  // clustered, as embeddings are
  size_t clusters = 1 + c.raw(9);
  bool dups = c.flip();
  std::vector<float> centre(clusters * dim);
  for (auto &v : centre) v = static_cast<float>(r.range(-100, 100)) / 10;
  for (uint32_t i = 0; i < t.n; ++i) {
    size_t k = r.below(clusters);
    for (size_t j = 0; j < dim; ++j) t.raw[i * dim + j] = centre[k * dim + j] + static_cast<float>(r.range(-100, 100)) / 25;
    if (dups && i && r.below(10) == 0) std::memcpy(&t.raw[i * dim], &t.raw[r.below(i) * dim], dim * sizeof(float));
  }
  t.x = t.raw;
  alaya::vamana::VamanaBuildParams p;
  p.R = t.R, p.L = 100, p.num_threads = 4;
  alaya::vamana::VamanaBuilder b(t.x.data(), t.n, static_cast<uint32_t>(dim), p);
  b.build();
  t.g = b.graph(), t.start = b.medoid();
  c.note(t.n, " vectors of dim ", t.md, "+", t.res, ", R ", t.R, " ", clusters, " clusters", dups ? " with duplicates" : "");
  auto err = build(t, c.dir(), "dsqg_x", 0, 4);
  c.check(err.empty(), "the build failed: ", err);
  QuantizedGraph qg(t.n, t.R, t.md, t.dim(), 0);
  qg.load_disk_index(t.prefix.c_str(), 0.5f);
  size_t ef = 150;
  qg.set_params(ef, 2, static_cast<int>(1 + c.raw(15)));
  size_t hit = 0, total = 0, self = 0;
  for (int i = 0; i < 40; ++i) {
    auto id = static_cast<uint32_t>(r.below(t.n));
    std::vector<float> q(t.row(id), t.row(id) + dim);
    bool exact = i % 2 == 0;
    if (!exact)
      for (auto &v : q) v += static_cast<float>(r.range(-100, 100)) / 50;
    std::vector<uint32_t> got(10);
    qg.search(q.data(), 10, got.data());
    judge(c, t, q.data(), got, false, "search " + std::to_string(i));
    std::vector<double> all;
    for (uint32_t j = 0; j < t.n; ++j) all.push_back(sq(q.data(), t.row(j), dim));
    std::sort(all.begin(), all.end());
    for (auto g : got)
      if (g < t.n && sq(q.data(), t.row(g), dim) <= all[9] * (1 + 1e-5) + 1e-6) ++hit;
    total += 10;
    if (exact && got[0] < t.n && sq(q.data(), t.row(got[0]), dim) == 0) ++self;
  }
  c.note("recall ", hit, "/", total, ", self ", self, "/20");
  c.label("recall " + std::to_string(hit * 20 / total * 5) + "%");
  c.check(hit * 100 >= total * 55 && self >= 17, "only ", hit, " of ", total, " true neighbours found, ", self, " of 20 stored vectors");
  c.nontrivial(t.n > ef);
}

// ---- refusing what does not fit ---------------------------------------------------------------------------------
PBT(build_refuses, "input files that do not fit, or a write that failed", 120, 3000, pbt::Opts{.hang_s = 60}) {
  Shape s;
  s.max_n = 40;
  auto t = draw(c, s);
  fs::create_directories(c.dir() / "in");
  t.prefix = c.dir() / "in" / "dsqg_x";
  write_inputs(t);
  auto vec = t.prefix.string() + "_pca_base.fbin", graph = t.prefix.string() + "_vamana";
  auto v = slurp(vec), g = slurp(graph);
  int how = static_cast<int>(c.raw(9));
  std::string what;
  auto cut = [&](const std::string &x, size_t keep_at_least) { return x.substr(0, keep_at_least + c.raw(x.size() - 1 - keep_at_least)); };
  switch (how) {
    case 0: what = "truncated vectors", spit(vec, cut(v, 0)); break;
    case 1: what = "other vector count", v[0] = static_cast<char>(v[0] ^ 1), spit(vec, v); break;
    case 2: what = "other dimension", v[4] = static_cast<char>(v[4] ^ 1), spit(vec, v); break;
    case 3: what = "truncated graph", spit(graph, cut(g, 0)); break;
    case 4: what = "no vectors", fs::remove(vec); break;
    case 5: {
      what = "graph of another size";
      auto h = t.g;
      if (c.flip())
        h.emplace_back(1, 0);
      else
        h.pop_back();
      for (auto &x : h) std::erase_if(x, [&](uint32_t y) { return y >= h.size(); });
      alaya::vamana::save_graph(h, graph, t.R, std::min<uint32_t>(t.start, static_cast<uint32_t>(h.size()) - 1));
      break;
    }
    case 6: {
      what = "link to an unknown node";
      uint32_t i = static_cast<uint32_t>(c.raw(t.n - 1));
      c.assume(!t.g[i].empty());
      auto h = t.g;
      h[i][c.raw(h[i].size() - 1)] = t.n + static_cast<uint32_t>(c.raw(1000));
      alaya::vamana::save_graph(h, graph, t.R, t.start);
      break;
    }
    case 7: {
      what = "more links than the index has room for";
      c.assume(t.n > t.R + 1);
      auto h = t.g;
      h[0].clear();
      for (uint32_t y = 1; y <= t.R + 1; ++y) h[0].push_back(y);
      alaya::vamana::save_graph(h, graph, t.R + 1, t.start);
      break;
    }
    default: what = "a failing write";
  }
  c.note(what);
  c.label(what);
  auto go = [&] {
    QuantizedGraph qg(t.n, t.R, t.md, t.dim(), 7);
    QGBuilder b(qg, 64, 1);
    b.build(graph.c_str(), t.prefix.c_str());
  };
  if (how < 8) {
    auto err = refusal(go);
    c.check(!err.empty(), "a build from ", what, " succeeded");
    c.nontrivial(true);
    return;
  }
  crash::Config cfg;
  cfg.root = (c.dir() / "in").string();
  cfg.mode = crash::Mode::kFail;
  cfg.target = static_cast<long>(c.raw(24));
  cfg.sticky = c.flip();
  cfg.partial = static_cast<double>(c.raw(3)) / 3;
  crash::arm(cfg);
  auto err = refusal(go);
  std::string op = crash::st().target_op;
  crash::disarm();
  c.note("failing at ", op, ": ", err);
  if (err.empty() && !op.empty()) {
    auto again = t;
    build(again, c.dir() / "ok", "dsqg_x", 7, 1);
    for (auto suffix : {"", "_rotator", "_cache_ids", "_cache_nodes"})
      c.check(slurp(t.index_file() + suffix) == slurp(again.index_file() + suffix), "the build succeeded though ", op, " failed, and its index", suffix, " file is wrong");
  }
  c.nontrivial(!op.empty());
}

namespace {
// A change to one of an index's files that its sizes and headers give away.
std::string damage(pbt::Case &c, const Index &t, const fs::path &dir, const std::string &prefix) {
  auto index = prefix + "_R" + std::to_string(t.R) + "_MD" + std::to_string(t.md) + ".index";
  std::vector<std::string> files{index, index + "_rotator", index + "_cache_ids", index + "_cache_nodes"};
  for (auto s : {"_medoids", "_medoids_indices", "_pca.bin"})
    if (fs::exists(dir / (prefix + s))) files.push_back(prefix + s);
  auto name = files[c.raw(files.size() - 1)];
  auto p = dir / name;
  auto s = slurp(p);
  size_t cached = get<uint64_t>(slurp(dir / (index + "_cache_ids")), 0);
  auto flip = [&](size_t at, const char *what) {
    s[at] = static_cast<char>(s[at] ^ (1 << c.raw(7)));
    fs::remove(p), spit(p, s);
    return std::string(what) + " of " + name + " changed";
  };
  bool header = c.chance(1, 2);
  if (header && name == index) {
    size_t field = c.pick({0u, 1u, 3u, 4u, 8u});
    return flip(field * 8 + c.raw(7), "header");
  }
  if (header && name == index + "_cache_nodes") return flip(c.raw(15), "header");
  if (header && name == index + "_cache_ids") return flip(c.raw(7), "count");
  if (header && name == prefix + "_pca.bin") return flip(c.raw(7), "dimension");
  if (header && (name == prefix + "_medoids" || name == prefix + "_medoids_indices")) return flip(c.raw(3), "count");
  if (c.chance(1, 4) && name == index + "_cache_ids" && cached > 0) {
    size_t at = 8 + 4 * c.raw(cached - 1) + 3;
    s[at] = static_cast<char>(0x80 | s[at]);
    fs::remove(p), spit(p, s);
    return "an id of " + name + " out of range";
  }
  if (c.chance(1, 4) && name == prefix + "_medoids_indices") {
    s[8 + 4 * c.raw(t.medoids.size() - 1) + 2] = 1;
    fs::remove(p), spit(p, s);
    return "an id of " + name + " out of range";
  }
  if (c.chance(1, 5)) {
    if (name.find("medoids") == std::string::npos && name.find("_pca") == std::string::npos) {
      fs::remove(p);
      return name + " removed";
    }
  }
  size_t keep = c.chance(1, 4) ? 0 : c.flip() ? s.size() - 1 - c.raw(std::min<size_t>(s.size() - 1, 8)) : c.raw(s.size() - 1);
  fs::remove(p), spit(p, s.substr(0, keep));
  return name + " cut from " + std::to_string(s.size()) + " to " + std::to_string(keep) + " bytes";
}
}  // namespace

PBT(load_damage, "damaged files beyond the index itself", 150, 4000, pbt::Opts{.hang_s = 60}) {
  Shape s;
  s.wide = true, s.max_n = 60;
  auto t = draw(c, s);
  auto err = build(t, c.dir(), "dsqg_x", 3, 1);
  c.check(err.empty(), "the build failed: ", err);
  bool other = c.chance(1, 6);
  auto shape = t;
  std::string what;
  if (other) {
    // The files of one index under the name of another shape: opened with the wrong count or residual dimensions.
    if (c.flip())
      shape.n += 1 + static_cast<uint32_t>(c.raw(5));
    else
      shape.res += 64;
    what = "opened as " + std::to_string(shape.n) + " vectors of dim " + std::to_string(shape.dim());
  } else {
    what = damage(c, t, c.dir(), "dsqg_x");
  }
  c.note(what);
  auto said = refusal([&] {
    QuantizedGraph qg(shape.n, shape.R, shape.md, shape.dim(), 0);
    qg.load_disk_index(shape.prefix.c_str(), 1.0f);
  });
  c.check(!said.empty(), "an index was loaded although ", what);
  c.nontrivial(other || what.find(".index_") != std::string::npos || what.find(".index") == std::string::npos);
}

// The index file loses its end while it is open: searches fail instead of using what they did not read, and work again
// once it is back.
PBT(unreadable_pages, "a search failed and later searches worked", 80, 2000, pbt::Opts{.hang_s = 20}) {
  Shape s;
  auto t = draw(c, s);
  auto err = build(t, c.dir(), "dsqg_x", 3, 1);
  c.check(err.empty(), "the build failed: ", err);
  QuantizedGraph qg(t.n, t.R, t.md, t.dim(), 0);
  qg.load_disk_index(t.prefix.c_str(), c.flip() ? 1.0f : 0.0f);
  size_t threads = 1 + c.raw(2);
  qg.set_params(everything_ef(t), threads, static_cast<int>(c.pick({1, 2, 4, 16})));
  auto whole = slurp(t.index_file());
  pbt::Rng r(c.seed());
  uint32_t k = static_cast<uint32_t>(1 + c.raw(t.n - 1));
  bool failed = false;
  for (size_t round = 1 + c.raw(2); round > 0; --round) {
    size_t pages = (t.n + t.per_page() - 1) / t.per_page();
    size_t keep = 4096 + t.page() * c.raw(pages - 1) + (c.flip() ? 512 * c.raw(t.page() / 512 - 1) : 0);
    fs::resize_file(t.index_file(), keep);
    size_t nq = 1 + c.raw(2 * threads);
    bool batch = c.flip();
    c.note("cut to ", keep, " of ", whole.size(), batch ? ", batch of " : ", single, ", nq);
    std::vector<float> qs;
    for (size_t i = 0; i < nq; ++i) {
      auto q = draw_query(t, r);
      qs.insert(qs.end(), q.begin(), q.end());
    }
    std::vector<uint32_t> out(nq * k);
    std::string said;
    if (batch) {
      said = refusal([&] { qg.batch_search(qs.data(), k, out.data(), nq); });
      failed = failed || !said.empty();
      for (size_t i = 0; said.empty() && i < nq; ++i) judge(c, t, qs.data() + i * t.dim(), {out.begin() + i * k, out.begin() + (i + 1) * k}, true, "a batch over a cut file");
    } else {
      for (size_t i = 0; i < nq; ++i) {
        said = refusal([&] { qg.search(qs.data() + i * t.dim(), k, out.data()); });
        failed = failed || !said.empty();
        if (said.empty()) judge(c, t, qs.data() + i * t.dim(), {out.begin(), out.begin() + k}, true, "a search over a cut file");
      }
    }
    // In place, as the index stays open.
    {
      std::fstream f(t.index_file(), std::ios::binary | std::ios::in | std::ios::out);
      f.write(whole.data(), static_cast<std::streamsize>(whole.size()));
    }
    qg.batch_search(qs.data(), k, out.data(), nq);
    for (size_t i = 0; i < nq; ++i) judge(c, t, qs.data() + i * t.dim(), {out.begin() + i * k, out.begin() + (i + 1) * k}, true, "after the file was restored");
  }
  c.nontrivial(failed);
}

// ---- PCA --------------------------------------------------------------------------------------------------------
PBT(pca, "more vectors than dimensions", 300, 10000) {
  size_t dim = 1 + c.raw(40), n = 2 + c.raw(120);
  pbt::Rng r(c.seed());
  std::vector<float> x(n * dim);
  double off = c.flip() ? 0 : 20;
  std::vector<double> spread(dim);
  for (auto &v : spread) v = r.below(4) ? 1 + static_cast<double>(r.below(30)) : 0;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < dim; ++j) x[i * dim + j] = static_cast<float>(off + spread[j] * static_cast<double>(r.below(100001)) / 100000);
  c.note(n, " vectors of dim ", dim);
  PCATransform p(dim);
  p.train(x.data(), n);
  std::vector<float> m(dim), a(dim * dim);
  p.copy_mean_for_test(m.data()), p.copy_pca_matrix_for_test(a.data());
  for (size_t j = 0; j < dim; ++j) {
    double mean = 0;
    for (size_t i = 0; i < n; ++i) mean += x[i * dim + j];
    c.check(std::abs(mean / n - m[j]) < 1e-3, "mean of dimension ", j, " is ", m[j], ", expected ", mean / n);
  }
  std::vector<double> var(dim);
  std::vector<float> y(n * dim), back(dim), again(dim);
  for (size_t i = 0; i < n; ++i) {
    p.transform(&x[i * dim], &y[i * dim]);
    for (size_t k = 0; k < dim; ++k) {
      double want = 0;
      for (size_t j = 0; j < dim; ++j) want += double(a[k * dim + j]) * (x[i * dim + j] - m[j]);
      c.check(std::abs(want - y[i * dim + k]) < 1e-2, "component ", k, " of vector ", i, " is ", y[i * dim + k], ", expected ", want);
      var[k] += double(y[i * dim + k]) * y[i * dim + k] / (n - 1);
    }
    p.inverse_transform(&y[i * dim], back.data());
    for (size_t j = 0; j < dim; ++j) c.check(std::abs(back[j] - x[i * dim + j]) < 2e-2, "the inverse image of vector ", i, " differs at ", j, ": ", back[j], " for ", x[i * dim + j]);
  }
  for (size_t k = 0; k < dim; ++k)
    for (size_t l = 0; l <= k; ++l) {
      double dot = 0;
      for (size_t j = 0; j < dim; ++j) dot += double(a[k * dim + j]) * a[l * dim + j];
      c.check(std::abs(dot - (k == l)) < 1e-3, "components ", k, " and ", l, " have inner product ", dot);
    }
  for (size_t k = 1; k < dim; ++k) c.check(var[k] <= var[k - 1] * 1.001 + 1e-2, "component ", k, " varies by ", var[k], ", the one before it by ", var[k - 1]);
  // uncorrelated
  for (size_t k = 1; k < dim; ++k) {
    double cov = 0;
    for (size_t i = 0; i < n; ++i) cov += double(y[i * dim + k]) * y[i * dim + k - 1] / (n - 1);
    c.check(std::abs(cov) < 1e-3 * (1 + var[k - 1]), "components ", k - 1, " and ", k, " are correlated: ", cov);
  }
  auto f = (c.dir() / "pca.bin").string();
  c.check(p.save(f), "saving failed");
  PCATransform q;
  c.check(q.load(f) && q.is_loaded() && q.dimension() == dim, "loading failed");
  for (size_t i = 0; i < n; ++i) {
    q.transform(&x[i * dim], again.data());
    c.check(!std::memcmp(again.data(), &y[i * dim], dim * sizeof(float)), "the reloaded transform maps vector ", i, " differently");
  }
  auto s = slurp(f);
  spit(f, c.flip() ? s.substr(0, c.raw(s.size() - 1)) : s + "x");
  PCATransform bad;
  c.check(!bad.load(f) && !bad.is_loaded(), "a file of the wrong size was loaded");
  c.nontrivial(n > dim && dim > 2);
}

// ---- segments and collections -----------------------------------------------------------------------------------
namespace {

std::string seg_name(uint64_t id) {
  char b[32];
  std::snprintf(b, sizeof b, "seg_%08llu", static_cast<unsigned long long>(id));
  return b;
}
uint64_t next_id(const fs::path &col) {
  std::ifstream f(col / "collection_manifest.txt");
  for (std::string l; std::getline(f, l);)
    if (l.rfind("next_segment_id=", 0) == 0) return std::stoull(l.substr(16));
  return 0;
}

struct Seg {
  Index t;
  std::vector<uint64_t> labels;
};

// The hits of a collection: NaN distances, known distinct labels; each segment's hits are that segment's own result for
// the query, and the segments take turns.
void judge_hits(pbt::Case &c, const std::vector<Seg> &segs, const float *q, const std::vector<DiskSearchHit> &hits, uint32_t k, bool everything, const std::string &what) {
  std::map<uint64_t, std::pair<size_t, uint32_t>> where;
  size_t rows = 0;
  for (size_t s = 0; s < segs.size(); ++s) {
    for (uint32_t i = 0; i < segs[s].t.n; ++i) where[segs[s].labels[i]] = {s, i};
    rows += segs[s].t.n;
  }
  std::vector<std::vector<uint32_t>> got(segs.size());
  c.check(hits.size() <= k, what, ": ", hits.size(), " hits for k ", k);
  size_t turn = 0, last = 0;
  for (auto &h : hits) {
    auto it = where.find(h.label);
    c.check(it != where.end(), what, ": unknown label ", h.label);
    c.check(std::isnan(h.distance), what, ": distance ", h.distance, " instead of NaN");
    auto [s, i] = it->second;
    got[s].push_back(i);
    size_t rank = got[s].size() - 1;
    c.check(rank > turn || (rank == turn && (s > last || got[s].size() == hits.size() || &h == hits.data())), what, ": hit of rank ", rank, " in segment ", s, " follows one of rank ", turn, " in segment ", last);
    turn = rank, last = s;
  }
  size_t reachable = 0;
  for (size_t s = 0; s < segs.size(); ++s) {
    std::vector<uint32_t> g = got[s];
    judge(c, segs[s].t, q, g, false, what);
    auto r = reached(segs[s].t, q);
    if (!r || !everything) {
      everything = false;
      continue;
    }
    reachable += std::min<size_t>(k, static_cast<size_t>(std::count(r->begin(), r->end(), 1)));
    judge(c, segs[s].t, q, g, true, what + " in segment " + std::to_string(s));
  }
  if (everything) c.check(hits.size() == std::min<size_t>(k, reachable), what, ": ", hits.size(), " hits for k ", k, " with ", reachable, " reachable");
}

Index artifacts(pbt::Case &c, uint32_t dim, const fs::path &dir, uint64_t id, bool medoids, uint32_t max_n) {
  Shape s;
  s.importable = true, s.max_n = max_n, s.wide = medoids;
  Index t = draw(c, s);
  // one dimension for the whole collection, and the default degree bound
  if (t.md != dim || t.R != 64) {
    pbt::Rng r(t.n * 31 + id);
    t.md = dim, t.R = 64;
    t.raw.resize(size_t{t.n} * dim);
    for (auto &v : t.raw) v = static_cast<float>(r.range(-9, 9));
    t.x = t.raw, t.pca.reset();
  }
  auto err = build(t, dir, "dsqg_" + seg_name(id), 0, 1);
  c.check(err.empty(), "the build failed: ", err);
  return t;
}

}  // namespace

PBT(segment_import, "an imported segment with labels of its own", 100, 3000, pbt::Opts{.hang_s = 60}) {
  Shape s;
  s.importable = true, s.wide = true, s.max_n = 80;
  auto t = draw(c, s);
  uint64_t id = c.pick<uint64_t>({0, 1, 7, 99999999});
  auto err = build(t, c.dir() / "src", "dsqg_" + seg_name(id), 0, 1);
  c.check(err.empty(), "the build failed: ", err);
  pbt::Rng r(c.seed());
  Seg seg{t, {}};
  for (uint32_t i = 0; i < t.n; ++i) seg.labels.push_back(c.flip() ? i : (r.below(2) ? UINT64_MAX - i : 1000003ull * (i + 1) + 17));
  fs::create_directories(c.dir() / "out");
  auto dst = c.dir() / "out" / seg_name(id);
  LaserSegmentImportParams p;
  p.R = t.R, p.main_dim = c.flip() ? 0 : t.md, p.copy_files = c.flip();
  p.search_dram_budget_gb = c.flip() ? 0.5f : c.flip() ? 0.0f : 0.00012345678f;
  std::map<std::string, std::string> before;
  for (auto &e : fs::directory_iterator(c.dir() / "src")) before[e.path().filename().string()] = slurp(e.path());
  {
    LaserSegmentImporter imp(t.md, MetricType::L2, p);
    auto m = imp.import_from(c.dir() / "src", seg.labels.data(), t.n, dst);
    c.check(m.count == t.n && m.dim == t.md && m.segment_id == seg_name(id), "the manifest describes another segment");
    auto m2 = SegmentManifest::load(dst / "manifest.txt");
    c.check(m2.count == t.n && m2.dim == t.md && m2.x_extras == m.x_extras, "the saved manifest differs from the one returned");
    // a second import to the same place is refused
    auto again = refusal([&] { (void)imp.import_from(c.dir() / "src", seg.labels.data(), t.n, dst); });
    c.check(!again.empty(), "an existing segment was overwritten");
  }
  for (auto &[name, bytes] : before) c.check(slurp(c.dir() / "src" / name) == bytes, "the source file ", name, " changed");
  auto ids = slurp(dst / "ids.u64.bin");
  c.check(ids.size() == 8 * size_t{t.n} && !std::memcmp(ids.data(), seg.labels.data(), ids.size()), "the labels file differs");
  size_t entries = 0;
  for (auto &e : fs::directory_iterator(c.dir() / "out")) c.check(e.path() == dst, "the import left ", e.path().filename()), ++entries;
  if (p.copy_files) fs::remove_all(c.dir() / "src");  // copied files stand on their own
  LaserSegmentSearcher se(dst);
  c.check(se.size() == t.n && se.dim() == t.md, "the segment has ", se.size(), " rows of dim ", se.dim());
  for (int i = 0; i < 6; ++i) {
    auto q = draw_query(t, r);
    DiskSearchOptions o;
    o.top_k = static_cast<uint32_t>(1 + c.raw(t.n + 3));
    bool everything = c.flip();
    o.ef = everything ? static_cast<uint32_t>(everything_ef(t)) : static_cast<uint32_t>(c.raw(60));
    o.beam_width = static_cast<uint32_t>(1 + c.raw(7));
    judge_hits(c, {seg}, q.data(), se.search(q.data(), o), o.top_k, everything && !t.pca, "search " + std::to_string(i));
  }
  // Several threads on one searcher.
  std::vector<std::vector<float>> qs;
  for (int i = 0; i < 4; ++i) qs.push_back(draw_query(t, r));
  std::vector<std::vector<DiskSearchHit>> got(4);
  std::vector<std::thread> ts;
  for (int i = 0; i < 4; ++i)
    ts.emplace_back([&, i] {
      DiskSearchOptions o;
      o.top_k = 5, o.ef = static_cast<uint32_t>(everything_ef(t)) + (i & 1), o.beam_width = 2;
      got[i] = se.search(qs[i].data(), o);
    });
  for (auto &th : ts) th.join();
  for (int i = 0; i < 4; ++i) judge_hits(c, {seg}, qs[i].data(), got[i], 5, !t.pca, "thread " + std::to_string(i));
  c.nontrivial(t.n > 5);
}

PBT(collection_history, "an import after a refused one, and two segments", 60, 2000, pbt::Opts{.hang_s = 60}) {
  auto root = c.dir() / "col";
  uint32_t dim = c.chance(1, 4) ? 256 : 128;
  std::optional<DiskCollection> col;
  col.emplace(root, dim, MetricType::L2, DiskIndexType::Laser);
  std::vector<Seg> segs;
  std::set<uint64_t> used;
  bool refused = false, after = false;
  pbt::Rng r(c.seed());
  auto look = [&](const std::string &when) {
    size_t rows = 0;
    for (auto &s : segs) rows += s.t.n;
    c.check(col->size() == rows, when, ": the collection has ", col->size(), " rows, expected ", rows);
    std::vector<float> q(dim);
    for (auto &f : q) f = static_cast<float>(r.range(-9, 9));
    if (!segs.empty() && r.below(2)) {
      auto &s = segs[r.below(segs.size())];
      q.assign(s.t.raw.begin(), s.t.raw.begin() + dim);
    }
    DiskSearchOptions o;
    o.top_k = static_cast<uint32_t>(1 + r.below(20));
    o.ef = 20000, o.beam_width = static_cast<uint32_t>(1 + r.below(6));
    judge_hits(c, segs, q.data(), col->search(q.data(), o), o.top_k, true, when);
    // labels and distances come back in the caller's buffers, padding untouched
    std::vector<uint64_t> l(o.top_k, UINT64_MAX);
    std::vector<float> d(o.top_k, -1);
    col->batch_search(q.data(), 1, o, 1, l.data(), r.below(2) ? d.data() : nullptr);
    std::vector<DiskSearchHit> hits;
    for (auto x : l)
      if (x != UINT64_MAX) hits.push_back({x, std::nanf("")});
    judge_hits(c, segs, q.data(), hits, o.top_k, true, when + " in a batch");
    for (auto &e : fs::directory_iterator(root / "segments")) {
      auto n = e.path().filename().string();
      c.check(n.rfind(".tmp", 0) != 0, when, ": temporary directory ", n, " left");
    }
  };
  for (size_t step = 2 + c.raw(4); step > 0; --step) {
    auto id = next_id(root);
    c.check(id > 0, "the manifest names no next segment");
    auto src = c.dir() / ("src" + std::to_string(step));
    int op = static_cast<int>(c.raw(9));
    if (op == 0) {
      col.reset();
      col.emplace(DiskCollection::open(root));
      look("after reopening");
      continue;
    }
    if (op == 1) {
      std::vector<float> v(dim);
      uint64_t l = 1;
      c.check(!refusal([&] { col->add_batch(v.data(), &l, 1); }).empty(), "add_batch on a LASER collection succeeded");
      look("after add_batch");
      continue;
    }
    Seg s{artifacts(c, dim, src, id, true, 30), {}};
    if (s.t.pca) {  // without a transform, so that what a search reaches can be told
      s.t.pca.reset(), s.t.x = s.t.raw;
      fs::remove(src / ("dsqg_" + seg_name(id) + "_pca.bin"));
      auto err = build(s.t, src, "dsqg_" + seg_name(id), 0, 1);
      c.check(err.empty(), "the build failed: ", err);
    }
    uint64_t base = r.below(1000) * 1000;
    while (used.contains(base)) ++base;
    for (uint32_t i = 0; i < s.t.n; ++i) {
      while (used.contains(base)) ++base;
      s.labels.push_back(base++);
    }
    std::string why;
    auto labels = s.labels;
    uint64_t n = s.t.n;
    if (op == 2 && n > 1) labels[c.raw(n - 1)] = labels[0] == labels.back() ? labels[0] : labels.back(), labels[0] = labels.back(), why = "a repeated label";
    if (op == 3 && !used.empty()) labels[c.raw(n - 1)] = *std::next(used.begin(), static_cast<std::ptrdiff_t>(r.below(used.size()))), why = "a label of another segment";
    if (op == 4) n = n > 1 && c.flip() ? n - 1 : 0, why = "another count";
    if (op == 5) why = damage(c, s.t, src, "dsqg_" + seg_name(id));
    if (op == 6) fs::rename(src, c.dir() / ("gone" + std::to_string(step))), why = "no source";
    c.note("import of ", s.t.n, " as ", seg_name(id), why.empty() ? "" : " with " + why);
    auto said = refusal([&] { col->import_laser_segment(src, labels.data(), n); });
    if (!why.empty()) {
      c.check(!said.empty(), "an import with ", why, " succeeded");
      c.label("refused: " + why.substr(0, why.find(' ')));
      refused = true;
      look("after an import refused for " + why);
      c.check(next_id(root) == id, "a refused import used up segment id ", id);
      continue;
    }
    c.check(said.empty(), "a valid import was refused: ", said);
    if (c.flip()) fs::remove_all(src);
    for (auto l : s.labels) used.insert(l);
    segs.push_back(std::move(s));
    after = after || refused;
    look("after an import");
  }
  col.reset();
  col.emplace(DiskCollection::open(root));
  look("at the end");
  c.nontrivial(after && segs.size() > 1);
}

// An import stopped at any file operation, or one of whose file operations fails, is there as a whole or not at all.
PBT(import_faults, "the import was stopped or failed", 90, 3000, pbt::Opts{.hang_s = 90}) {
  auto root = c.dir() / "col";
  uint32_t dim = 128;
  std::vector<Seg> segs;
  Seg first{artifacts(c, dim, c.dir() / "a", 1, false, 20), {}}, second{artifacts(c, dim, c.dir() / "b", 2, false, 20), {}};
  for (uint32_t i = 0; i < first.t.n; ++i) first.labels.push_back(i);
  for (uint32_t i = 0; i < second.t.n; ++i) second.labels.push_back(100000 + i);
  // the same artifacts under the names an id further on would need
  for (int id = 3; id < 8; ++id)
    for (auto &e : std::vector<fs::directory_entry>(fs::directory_iterator(c.dir() / "b"), {})) {
      auto n = e.path().filename().string();
      auto at = n.find("seg_00000002");
      if (at != std::string::npos) fs::create_hard_link(e.path(), c.dir() / "b" / n.replace(at, 12, seg_name(id)));
    }
  bool kill = c.flip();
  long target = static_cast<long>(c.raw(44));
  bool sticky = c.flip(), power = kill && c.chance(1, 2);
  double partial = static_cast<double>(c.raw(3)) / 3;
  crash::Config cfg;
  cfg.root = root.string();
  auto *acked = static_cast<int *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  acked[0] = acked[1] = acked[2] = 0;
  {
    crash::Config off;
    off.root = root.string();
    auto o = crash::run(off, [&]() -> std::string {
      DiskCollection col(root, dim, MetricType::L2, DiskIndexType::Laser);
      col.import_laser_segment(c.dir() / "a", first.labels.data(), first.t.n);
      return "";
    });
    c.check(!o.died && !o.threw, "the first import failed: ", o.what);
  }
  segs.push_back(first);
  cfg.mode = kill ? crash::Mode::kKill : crash::Mode::kOff;
  cfg.target = target, cfg.partial = partial;
  cfg.lose_data = power;
  cfg.lose_meta = power && c.flip() ? static_cast<double>(1 + c.raw(9)) / 10 : 0;
  cfg.strict_dirs = cfg.lose_meta > 0 && c.flip();
  auto o = crash::run(cfg, [&]() -> std::string {
    auto col = DiskCollection::open(root);
    std::string op;
    if (!kill) {
      crash::Config f = cfg;
      f.mode = crash::Mode::kFail, f.sticky = sticky;
      crash::arm(f);
    }
    auto said = refusal([&] { col.import_laser_segment(c.dir() / "b", second.labels.data(), second.t.n); });
    if (!kill) op = crash::st().target_op, crash::disarm();
    acked[0] = said.empty() ? 1 : 2;
    if (!kill) {
      acked[2] = static_cast<int>(col.size());
      if (!said.empty()) acked[1] = refusal([&] { col.import_laser_segment(c.dir() / "b", second.labels.data(), second.t.n); }).empty() ? 1 : 2;
    }
    return op + "|" + said;
  });
  int ack = acked[0], retry = acked[1], seen = acked[2];
  munmap(acked, 4096);
  std::string how = kill ? (o.killed ? "stopped at " + o.target_op : "not stopped") : "failing at " + o.what;
  c.note(how, power ? " losing data" : "", cfg.lose_meta > 0 ? " and metadata" : "", sticky ? " sticky" : "");
  c.check(!o.died && !o.threw, "the import crashed: ", o.what, " ", how);
  c.check(kill || seen == static_cast<int>(first.t.n + (ack == 1 ? second.t.n : 0)), how, ": the open collection has ", seen, " rows after an import that was ", ack == 1 ? "done" : "refused");
  c.check(ack != 2 || !kill, "an import failed without a fault: ", o.what);
  c.check(retry != 2, how, ": importing again was refused");
  DiskCollection col = DiskCollection::open(root);
  bool must = (ack == 1 && (!o.killed)) || retry == 1;
  bool there = col.size() == first.t.n + second.t.n;
  c.check(there || (!must && col.size() == first.t.n), how, ": the collection has ", col.size(), " rows, with ", first.t.n, " of the first import and ", second.t.n, " of the second");
  if (there) segs.push_back(second);
  pbt::Rng r(c.seed());
  for (int i = 0; i < 3; ++i) {
    auto q = draw_query(first.t, r);
    DiskSearchOptions op;
    op.top_k = 10, op.ef = 20000;
    judge_hits(c, segs, q.data(), col.search(q.data(), op), op.top_k, true, "after reopening");
  }
  if (!there) {
    auto said = refusal([&] { col.import_laser_segment(c.dir() / "b", second.labels.data(), second.t.n); });
    c.check(said.empty(), how, ": importing again after reopening was refused: ", said);
    c.check(col.size() == first.t.n + second.t.n, "importing again left ", col.size(), " rows");
  }
  c.nontrivial(o.killed || ack == 2);
}
