// Vamana graph construction: pruning and the whole single-threaded build against definitional references, structural
// invariants of every build (multi-threaded and sharded ones too), the graph file's round trip, greedy search, k-means
// partitioning, shard assignment and merging.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include "gen.hpp"
#include "main.hpp"
#include "index/graph/vamana/budget_estimator.hpp"
#include "index/graph/vamana/build_dispatch.hpp"
#include "index/graph/vamana/kmeans_partition.hpp"
#include "index/graph/vamana/robust_prune.hpp"
#include "index/graph/vamana/shard_assigner.hpp"
#include "index/graph/vamana/shard_merger.hpp"
#include "index/graph/vamana/vamana_builder.hpp"
#include "index/graph/vamana/vamana_greedy_search.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "index/graph/vamana/vamana_writer.hpp"
using namespace alaya::vamana;
namespace fs = std::filesystem;

namespace {

using Adj = std::vector<std::vector<uint32_t>>;
using Cand = std::pair<float, uint32_t>;  // ordered by distance, then id

std::string slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spit(const fs::path &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), static_cast<std::streamsize>(s.size()));
}
template <class F>
bool throws(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
template <class T>
T get(const std::string &s, size_t at) {
  T v{};
  if (at + sizeof v <= s.size()) std::memcpy(&v, s.data() + at, sizeof v);
  return v;
}
template <class T>
void put(std::string &s, T v) {
  s.append(reinterpret_cast<const char *>(&v), sizeof v);
}
std::string fbin(const std::vector<float> &v, uint32_t n, uint32_t dim) {
  std::string s;
  put(s, n), put(s, dim);
  s.append(reinterpret_cast<const char *>(v.data()), v.size() * sizeof(float));
  return s;
}
std::string list(const std::vector<uint32_t> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 40; ++i) s += (i ? " " : "") + std::to_string(v[i]);
  return s + (v.size() > 40 ? " ...]" : "]");
}

struct Data {
  std::vector<float> v;
  size_t n;
  uint32_t dim;
  const float *row(size_t i) const { return v.data() + i * dim; }
  // exact for the small integers of lattice data
  float d(size_t a, size_t b) const { return to(row(a), b); }
  float to(const float *q, size_t b) const {
    float s = 0;
    for (uint32_t j = 0; j < dim; ++j) {
      float t = q[j] - row(b)[j];
      s += t * t;
    }
    return s;
  }
};

// Small integer coordinates: every distance is exact in float, with many ties and repeated points.
Data lattice(pbt::Case &c, size_t max_n) {
  Data x;
  x.n = c.size(1, max_n), x.dim = static_cast<uint32_t>(c.flip() ? 1 + c.raw(3) : c.pick<size_t>({1, 2, 3, 5, 8, 16, 24}));
  pbt::Rng r(c.seed());
  int64_t span = c.pick<int64_t>({0, 1, 3, 10, 40, 200});
  size_t style = c.weighted({5, 2, 2});
  x.v.resize(x.n * x.dim);
  std::vector<int64_t> centre(x.dim);
  for (size_t i = 0; i < x.n; ++i) {
    if (style == 1 && i % 7 == 0)
      for (auto &t : centre) t = r.range(-150, 150);
    if (style == 2 && i && r.below(2)) {
      std::copy_n(x.row(r.below(i)), x.dim, x.v.data() + i * x.dim);
      continue;
    }
    for (uint32_t j = 0; j < x.dim; ++j) x.v[i * x.dim + j] = static_cast<float>(centre[j] + r.range(-span, span));
  }
  c.note(x.n, " points of dim ", x.dim, ", coordinates within ", span, style == 1 ? ", clustered" : style == 2 ? ", repeated" : "");
  return x;
}

Data gaussian(pbt::Case &c, size_t n, uint32_t dim) {
  Data x;
  x.n = n, x.dim = dim;
  x.v.resize(n * dim);
  pbt::Rng r(c.seed());
  for (auto &t : x.v) t = static_cast<float>(r.gauss());
  return x;
}

// ---- definitions ------------------------------------------------------------------------------------------------
// A candidate is kept at ramp value a (1, 1.2, 1.44, ... up to alpha) if no kept nearer candidate k has
// dist(candidate) / d(k, candidate) above a; equal vectors occlude each other.
template <class D>
std::vector<uint32_t> prune_by_definition(uint32_t self, std::vector<Cand> pool, float alpha, size_t R, size_t maxc, D &&d) {
  std::sort(pool.begin(), pool.end());
  if (pool.size() > maxc) pool.resize(maxc);
  std::vector<bool> kept(pool.size());
  std::vector<uint32_t> out;
  for (float a = 1.0f; a <= alpha && out.size() < R; a *= 1.2f)
    for (size_t j = 0; j < pool.size() && out.size() < R; ++j) {
      if (kept[j]) continue;
      bool ok = true;
      for (size_t k = 0; k < j && ok; ++k)
        if (kept[k]) {
          float t = d(pool[j].second, pool[k].second);
          ok = t != 0.0f && pool[j].first / t <= a;
        }
      if (!ok) continue;
      kept[j] = true;
      if (pool[j].second != self) out.push_back(pool[j].second);
    }
  return out;
}

// Best-first search keeping the L best of everything seen; returns the expanded nodes and leaves the L best in `best`.
template <class D>
std::vector<Cand> search_by_definition(const Adj &g, uint32_t start, size_t L, D &&dist, std::set<Cand> &best) {
  std::vector<Cand> expanded;
  std::set<uint32_t> seen{start}, done;
  best = {{dist(start), start}};
  while (true) {
    auto it = std::find_if(best.begin(), best.end(), [&](const Cand &x) { return !done.count(x.second); });
    if (it == best.end()) return expanded;
    Cand cur = *it;
    done.insert(cur.second), expanded.push_back(cur);
    for (uint32_t m : g[cur.second])
      if (seen.insert(m).second) best.insert({dist(m), m});
    while (best.size() > L) best.erase(std::prev(best.end()));
  }
}

uint32_t medoid_by_definition(const Data &x) {
  std::vector<double> mean(x.dim);
  for (size_t i = 0; i < x.n; ++i)
    for (uint32_t j = 0; j < x.dim; ++j) mean[j] += x.row(i)[j];
  double best = INFINITY;
  uint32_t id = 0;
  for (size_t i = 0; i < x.n; ++i) {
    double s = 0;
    for (uint32_t j = 0; j < x.dim; ++j) {
      double t = static_cast<double>(static_cast<float>(mean[j] * (1.0 / static_cast<double>(x.n)))) - x.row(i)[j];
      s += t * t;
    }
    if (s < best) best = s, id = static_cast<uint32_t>(i);
  }
  return id;
}
double off_centre(const Data &x, uint32_t id) {
  double s = 0;
  for (uint32_t j = 0; j < x.dim; ++j) {
    double m = 0;
    for (size_t i = 0; i < x.n; ++i) m += x.row(i)[j];
    double t = static_cast<double>(static_cast<float>(m / static_cast<double>(x.n))) - x.row(id)[j];
    s += t * t;
  }
  return s;
}

Adj build_by_definition(const Data &x, const VamanaBuildParams &p, uint32_t medoid) {
  Adj g(x.n);
  auto d = [&](uint32_t a, uint32_t b) { return x.d(a, b); };
  auto prune_list = [&](uint32_t node, const std::vector<uint32_t> &ids) {
    std::set<uint32_t> u(ids.begin(), ids.end());
    u.erase(node);
    std::vector<Cand> pool;
    for (uint32_t i : u) pool.push_back({d(node, i), i});
    return prune_by_definition(node, pool, p.alpha, p.R, p.maxc, d);
  };
  size_t slack = static_cast<size_t>(1.3f * static_cast<float>(p.R));
  for (uint32_t node = 0; node < x.n; ++node) {
    std::set<Cand> best;
    auto pool = search_by_definition(g, medoid, p.L, [&](uint32_t i) { return d(node, i); }, best);
    std::erase_if(pool, [&](const Cand &k) { return k.second == node; });
    auto out = prune_by_definition(node, pool, p.alpha, p.R, p.maxc, d);
    if (!out.empty()) g[node] = out;
    for (uint32_t to : out) {
      auto &back = g[to];
      if (std::find(back.begin(), back.end(), node) != back.end()) continue;
      if (back.size() < slack) {
        back.push_back(node);
      } else {
        auto ids = back;
        ids.push_back(node);
        back = prune_list(to, ids);
      }
    }
  }
  for (uint32_t node = 0; node < x.n; ++node)
    if (g[node].size() > p.R) g[node] = prune_list(node, g[node]);
  return g;
}

void check_graph(pbt::Case &c, const Adj &g, size_t n, size_t R, const char *what) {
  c.check(g.size() == n, what, " has ", g.size(), " nodes instead of ", n);
  for (size_t i = 0; i < n; ++i) {
    c.check(g[i].size() <= R, what, ": node ", i, " has ", g[i].size(), " neighbours, limit ", R);
    c.check(n < 2 || !g[i].empty(), what, ": node ", i, " has no neighbours");
    std::set<uint32_t> u;
    for (uint32_t m : g[i]) {
      c.check(m < n, what, ": node ", i, " links to ", m, " of ", n);
      c.check(m != i, what, ": node ", i, " links to itself");
      c.check(u.insert(m).second, what, ": node ", i, " links to ", m, " twice");
    }
  }
}

std::vector<uint8_t> reached(const Adj &g, uint32_t start) {
  std::vector<uint8_t> seen(g.size());
  std::vector<uint32_t> todo{start};
  seen[start] = 1;
  while (!todo.empty()) {
    uint32_t x = todo.back();
    todo.pop_back();
    for (uint32_t m : g[x])
      if (!seen[m]) seen[m] = 1, todo.push_back(m);
  }
  return seen;
}

// The graph file as its documented layout describes it.
Adj parse(pbt::Case &c, const std::string &b, uint32_t &deg, uint32_t &start) {
  c.check(b.size() >= 24 && get<uint64_t>(b, 0) == b.size(), "the header gives ", get<uint64_t>(b, 0), " bytes, the file has ", b.size());
  deg = get<uint32_t>(b, 8), start = get<uint32_t>(b, 12);
  c.check(get<uint64_t>(b, 16) == 0, "frozen points in the header");
  Adj g;
  for (size_t at = 24; at < b.size();) {
    uint32_t k = get<uint32_t>(b, at);
    at += 4;
    c.check(k <= (b.size() - at) / 4, "a list runs past the end of the file");
    std::vector<uint32_t> l(k);
    std::memcpy(l.data(), b.data() + at, k * 4);
    at += k * 4;
    g.push_back(std::move(l));
  }
  return g;
}

VamanaBuildParams draw_params(pbt::Case &c) {
  VamanaBuildParams p;
  p.R = static_cast<uint32_t>(c.flip() ? 1 + c.raw(7) : 1 + c.raw(31));
  p.L = static_cast<uint32_t>(c.flip() ? p.R + c.raw(40) : 1 + c.raw(60));
  p.alpha = c.pick<float>({1.0f, 1.2f, 1.1f, 1.5f, 2.0f});
  p.num_threads = 1;
  if (c.chance(1, 4)) p.maxc = static_cast<uint32_t>(1 + c.raw(20));
  c.note("R ", p.R, " L ", p.L, " alpha ", p.alpha, " maxc ", p.maxc);
  return p;
}

}  // namespace

// ---- pruning ----------------------------------------------------------------------------------------------------
PBT(prune, "some but not all candidates were kept", 6000, 200000) {
  auto x = lattice(c, 60);
  if (x.n < 2) x = gaussian(c, 2, 2);
  uint32_t self = static_cast<uint32_t>(c.raw(x.n - 1));
  uint32_t R = static_cast<uint32_t>(1 + c.raw(c.flip() ? 5 : 40)), maxc = static_cast<uint32_t>(c.flip() ? 750 : 1 + c.raw(40));
  float alpha = c.pick<float>({1.0f, 1.2f, 1.05f, 1.45f, 2.0f, 3.0f});
  std::vector<Neighbor> pool;
  std::vector<Cand> cand;
  pbt::Rng r(c.seed());
  bool with_self = c.chance(1, 8);
  std::vector<uint32_t> order(x.n);
  for (uint32_t i = 0; i < x.n; ++i) order[i] = i;
  for (size_t i = x.n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  for (uint32_t i : order)
    if ((i != self || with_self) && r.below(8)) pool.emplace_back(i, x.d(self, i)), cand.push_back({x.d(self, i), i});
  c.note("node ", self, ", ", pool.size(), " candidates, R ", R, " alpha ", alpha, " maxc ", maxc);
  auto d = [&](uint32_t a, uint32_t b) { return x.d(a, b); };
  std::vector<uint32_t> got{7, 7, 7};
  std::vector<float> scratch(c.raw(5), 9.0f);
  prune_neighbors(self, pool, alpha, R, maxc, got, scratch, d);
  auto want = prune_by_definition(self, cand, alpha, R, maxc, d);
  auto a = got, b = want;
  std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
  c.check(a == b, "kept ", list(got), ", by the rule ", list(want));
  if (!cand.empty() && !with_self) c.check(got.size() >= 1 && x.d(self, got[0]) == std::min_element(cand.begin(), cand.end())->first, "the nearest candidate was dropped");
  c.nontrivial(want.size() > 1 && want.size() < cand.size());
}

// ---- build ------------------------------------------------------------------------------------------------------
PBT(build_single_thread, "a list was pruned during the build", 700, 20000, pbt::Opts{.hang_s = 120}) {
  auto x = lattice(c, 120);
  auto p = draw_params(c);
  VamanaBuilder b(x.v.data(), x.n, x.dim, p);
  b.build();
  c.check(b.medoid() == medoid_by_definition(x), "entry point ", b.medoid(), " instead of ", medoid_by_definition(x));
  check_graph(c, b.graph(), x.n, p.R, "the graph");
  auto want = build_by_definition(x, p, b.medoid());
  for (size_t i = 0; i < x.n; ++i) {
    auto got = b.graph()[i], w = want[i];
    std::sort(got.begin(), got.end()), std::sort(w.begin(), w.end());
    c.check(got == w, "node ", i, " links to ", list(got), ", by the algorithm ", list(w));
  }
  VamanaBuilder again(x.v.data(), x.n, x.dim, p);
  again.build();
  c.check(again.graph() == b.graph(), "a second build differs");
  c.nontrivial(x.n > p.R + 1 && x.n > 10);
}

PBT(build_multi_thread, "several threads over more than one chunk", 30, 600, pbt::Opts{.hang_s = 200}) {
  size_t n = c.flip() ? c.size(1, 300) : c.size(2049, 5000);
  Data x;
  if (n < 2049 && c.flip())
    x = lattice(c, 300);
  else
    x = gaussian(c, n, static_cast<uint32_t>(1 + c.raw(15)));
  VamanaBuildParams p;
  p.R = static_cast<uint32_t>(c.flip() ? 1 + c.raw(7) : 8 + c.raw(24)), p.L = p.R + static_cast<uint32_t>(c.raw(30));
  p.num_threads = static_cast<uint32_t>(2 + c.raw(4));
  c.note(x.n, " points of dim ", x.dim, " R ", p.R, " L ", p.L, " threads ", p.num_threads);
  VamanaBuilder b(x.v.data(), x.n, x.dim, p);
  b.build();
  check_graph(c, b.graph(), x.n, p.R, "the graph");
  c.check(b.medoid() < x.n, "entry point out of range");
  double got = off_centre(x, b.medoid()), best = off_centre(x, medoid_by_definition(x));
  c.check(got <= best * (1 + 1e-9) + 1e-12, "the entry point is at ", got, " from the mean, another point at ", best);
  c.nontrivial(x.n > 2048);
}

// Gaussian data and common parameters: nearly every point must be found.
PBT(navigable, "more points than the search width", 24, 400, pbt::Opts{.hang_s = 200}) {
  size_t n = 50 + c.raw(c.flip() ? 300 : 2500);
  uint32_t dim = static_cast<uint32_t>(2 + c.raw(14));
  auto x = gaussian(c, n, dim);
  VamanaBuildParams p;
  p.R = static_cast<uint32_t>(16 + c.raw(32)), p.L = std::max(p.R, 50u) + static_cast<uint32_t>(c.raw(50));
  p.alpha = c.flip() ? 1.2f : 1.1f;
  p.num_threads = static_cast<uint32_t>(1 + c.raw(3));
  c.note(n, " gaussian points of dim ", dim, ", R ", p.R, " L ", p.L, " threads ", p.num_threads);
  auto d = c.dir();
  VamanaBuilder b(x.v.data(), n, dim, p);
  b.build();
  save_graph(b.graph(), d / "g", p.R, b.medoid());
  VamanaReader rd(d / "g");
  c.check(rd.graph() == b.graph() && rd.start() == b.medoid(), "the graph read back differs");
  auto seen = reached(rd.graph(), rd.start());
  size_t lost = static_cast<size_t>(std::count(seen.begin(), seen.end(), 0));
  c.check(lost * 50 <= n, lost, " of ", n, " nodes are unreachable");
  VamanaGreedySearch s(rd, x.v.data(), dim);
  size_t hit = 0, total = 0, self_found = 0, selfs = 0;
  pbt::Rng r(c.seed());
  for (int q = 0; q < 40; ++q) {
    std::vector<float> query(dim);
    for (auto &t : query) t = static_cast<float>(r.gauss());
    std::vector<Cand> all;
    for (uint32_t i = 0; i < n; ++i) all.push_back({x.to(query.data(), i), i});
    std::sort(all.begin(), all.end());
    std::set<uint32_t> top;
    for (int i = 0; i < 10; ++i) top.insert(all[i].second);
    for (auto &h : s.search(query.data(), 10, 100)) hit += top.count(h.id);
    total += 10;
    uint32_t id = static_cast<uint32_t>(r.below(n));
    auto h = s.search(x.row(id), 1, 100);
    ++selfs, self_found += !h.empty() && h[0].distance == 0.0f;
  }
  c.check(hit >= total * 85 / 100, "recall ", hit, "/", total);
  c.check(self_found * 10 >= selfs * 9, "only ", self_found, " of ", selfs, " stored points are found by their own vector");
  c.nontrivial(n > 100);
}

// ---- graph file -------------------------------------------------------------------------------------------------
namespace {
Adj random_graph(pbt::Case &c, size_t n, uint32_t R, bool allow_empty) {
  pbt::Rng r(c.seed());
  Adj g(n);
  for (size_t i = 0; i < n; ++i) {
    size_t k = std::min<size_t>(R, n - 1);
    k = r.below(4) == 0 ? k : r.below(k + 1);
    if (!allow_empty && k == 0) k = 1;
    std::set<uint32_t> u;
    while (u.size() < k) {
      uint32_t m = static_cast<uint32_t>(r.below(n));
      if (m != i) u.insert(m);
    }
    g[i].assign(u.begin(), u.end());
    for (size_t j = g[i].size(); j > 1; --j) std::swap(g[i][j - 1], g[i][r.below(j)]);
  }
  return g;
}
}  // namespace

PBT(graph_file, "several nodes", 1500, 40000) {
  size_t n = c.size(2, 200);
  uint32_t R = static_cast<uint32_t>(1 + c.raw(40)), start = static_cast<uint32_t>(c.raw(n - 1));
  auto g = random_graph(c, n, R, false);
  auto d = c.dir();
  auto path = c.flip() ? d / "g" : d / "new" / "dir" / "g";
  if (c.flip()) {
    fs::create_directories(path.parent_path());
    spit(path, std::string(c.raw(9000), 'x'));  // an older, maybe longer file
  }
  save_graph(g, path, R, start);
  uint32_t deg, st;
  auto bytes = slurp(path);
  c.check(parse(c, bytes, deg, st) == g && deg == R && st == start, "the file does not hold the graph");
  VamanaReader rd(path);
  c.check(rd.graph() == g && rd.start() == start && rd.max_degree() == R && rd.num_nodes() == n && rd.frozen_pts() == 0, "the graph read back differs");
  save_graph(rd.graph(), d / "again", rd.max_degree(), rd.start());
  c.check(slurp(d / "again") == bytes, "writing the graph read back gives another file");
  c.note(n, " nodes, R ", R);
  c.nontrivial(n > 3);
}

PBT(graph_file_refused, "a well-formed size with a broken field", 2500, 60000) {
  size_t n = c.size(2, 30);
  uint32_t R = static_cast<uint32_t>(1 + c.raw(8)), start = static_cast<uint32_t>(c.raw(n - 1));
  auto g = random_graph(c, n, R, false);
  uint32_t deg = R;
  uint64_t frozen = 0;
  size_t node = c.raw(n - 1);
  int what = static_cast<int>(c.raw(8));
  auto &l = g[node];
  switch (what) {
    case 0: l.clear(); break;
    case 1: l[c.raw(l.size() - 1)] = static_cast<uint32_t>(node); break;
    case 2: l[c.raw(l.size() - 1)] = static_cast<uint32_t>(n + (c.flip() ? 0 : c.raw(1000))); break;
    case 3: start = static_cast<uint32_t>(n + (c.flip() ? 0 : c.raw(1000))); break;
    case 4: deg = static_cast<uint32_t>(l.size()) - 1; break;
    case 5: frozen = 1 + c.raw(5); break;
    default: break;
  }
  auto p = c.dir() / "g";
  save_graph(g, p, deg, start, frozen);
  auto b = slurp(p);
  if (what == 6) b.resize(c.flip() ? b.size() - 1 : c.raw(b.size() - 1));
  if (what == 7) b += std::string(1 + c.raw(7), '\0');
  if (what == 8) {  // a wrong count whose size field agrees with the file
    b.resize(b.size() - 4 * (1 + c.raw(g.back().size() - 1)));
    uint64_t size = b.size();
    std::memcpy(b.data(), &size, 8);
  }
  if (what >= 6) spit(p, b);
  c.check(throws([&] { VamanaReader rd(p); }), "a broken graph file was accepted (case ", what, ")");
  c.label("case " + std::to_string(what));
  c.nontrivial(what < 6 || what == 8);
}

PBT(save_to_a_full_disk, "always", 60, 300) {
  size_t n = c.size(2, 50);
  auto g = random_graph(c, n, 3, false);
  auto d = c.dir();
  switch (c.raw(2)) {
    case 0: c.check(throws([&] { save_graph(g, "/dev/full", 3, 0); }), "saving a graph on a full disk reported success"); break;
    default: {
      bool second = c.flip();
      std::string ids;
      put<uint32_t>(ids, static_cast<uint32_t>(n)), put<uint32_t>(ids, 1);
      for (uint32_t i = 0; i < n; ++i) put(ids, i);
      spit(d / "i", ids);
      save_graph(g, d / "s", 3, 0);
      fs::create_symlink("/dev/full", second ? d / "out_medoids.bin" : d / "out");
      c.check(throws([&] { merge_shards({d / "s"}, {d / "i"}, d / "out", 3, 0, 1); }), "merging into ", second ? "a medoid file" : "a graph file", " on a full disk reported success");
    }
  }
  c.nontrivial();
}

// ---- greedy search ----------------------------------------------------------------------------------------------
PBT(greedy_search, "the graph has more nodes than the search width", 1500, 40000) {
  auto x = lattice(c, 150);
  if (x.n < 2) x = gaussian(c, 2, 1);
  uint32_t R = static_cast<uint32_t>(1 + c.raw(12));
  auto g = random_graph(c, x.n, R, false);
  auto d = c.dir();
  uint32_t start = static_cast<uint32_t>(c.raw(x.n - 1));
  save_graph(g, d / "g", R, start);
  VamanaReader rd(d / "g");
  VamanaGreedySearch s(rd, x.v.data(), x.dim);
  // a second index of another size served by the same thread
  auto g2 = random_graph(c, c.flip() ? x.n : 2 + c.raw(20), R, false);
  std::vector<float> v2(g2.size() * x.dim, 1.0f);
  save_graph(g2, d / "g2", R, 0);
  VamanaReader rd2(d / "g2");
  VamanaGreedySearch s2(rd2, v2.data(), x.dim);
  bool wide = false;
  for (size_t rep = 1 + c.raw(4); rep > 0; --rep) {
    uint32_t L = static_cast<uint32_t>(1 + c.raw(c.flip() ? 10 : 200)), k = static_cast<uint32_t>(1 + c.raw(L - 1));
    std::vector<float> q(x.dim);
    pbt::Rng r(c.seed());
    for (auto &t : q) t = static_cast<float>(r.range(-20, 20));
    std::set<Cand> best;
    search_by_definition(g, start, L, [&](uint32_t i) { return x.to(q.data(), i); }, best);
    auto got = s.search(q.data(), k, L);
    c.note("L ", L, " k ", k);
    c.check(got.size() == std::min<size_t>(k, best.size()), got.size(), " hits instead of ", std::min<size_t>(k, best.size()));
    auto it = best.begin();
    for (size_t i = 0; i < got.size(); ++i, ++it) {
      c.check(got[i].distance == x.to(q.data(), got[i].id), "hit ", i, " has distance ", got[i].distance);
      c.check(got[i].id == it->second, "hit ", i, " is ", got[i].id, " instead of ", it->second);
    }
    auto seen = reached(g, start);
    size_t can = static_cast<size_t>(std::count(seen.begin(), seen.end(), 1));
    if (L >= x.n) c.check(best.size() == can && got.size() == std::min<size_t>(k, can), "a full-width search misses reachable nodes");
    wide = wide || x.n > L;
    if (c.flip()) c.check(s2.search(q.data(), 1, 5).size() == 1, "the other index found nothing");
  }
  std::vector<float> q(x.dim);
  c.check(throws([&] { s.search(q.data(), 0, 5); }) && throws([&] { s.search(q.data(), 1, 0); }) && throws([&] { s.search(q.data(), 6, 5); }), "invalid search parameters were accepted");
  c.nontrivial(wide);
}

// ---- k-means ----------------------------------------------------------------------------------------------------
namespace {
double err_of(const Data &x, const float *a, const float *b) {
  double s = 0;
  for (uint32_t j = 0; j < x.dim; ++j) s += static_cast<double>(a[j]) * a[j] + static_cast<double>(b[j]) * b[j];
  return 2e-6 * s * (4 + x.dim);
}
double dist64(const float *a, const float *b, uint32_t dim) {
  double s = 0;
  for (uint32_t j = 0; j < dim; ++j) {
    double t = static_cast<double>(a[j]) - b[j];
    s += t * t;
  }
  return s;
}
Data cluster_data(pbt::Case &c, size_t max_n) {
  if (c.flip()) return lattice(c, max_n);
  auto x = gaussian(c, c.size(1, max_n), static_cast<uint32_t>(1 + c.raw(20)));
  c.note(x.n, " gaussian points of dim ", x.dim);
  return x;
}
// Checks the k nearest centres given for each point.
void check_closest(pbt::Case &c, const Data &x, const float *cent, size_t nc, size_t k, const uint32_t *got) {
  for (size_t i = 0; i < x.n; ++i) {
    std::vector<double> all(nc);
    double err = 0;
    for (size_t j = 0; j < nc; ++j) all[j] = dist64(x.row(i), cent + j * x.dim, x.dim), err = std::max(err, err_of(x, x.row(i), cent + j * x.dim));
    auto sorted = all;
    std::sort(sorted.begin(), sorted.end());
    std::set<uint32_t> u;
    for (size_t t = 0; t < k; ++t) {
      uint32_t id = got[i * k + t];
      c.check(id < nc, "point ", i, " got centre ", id);
      c.check(u.insert(id).second, "point ", i, " got centre ", id, " twice");
      c.check(std::fabs(all[id] - sorted[t]) <= err, "centre ", t, " of point ", i, " is at ", all[id], ", the ", t, "-th nearest at ", sorted[t]);
    }
  }
}
}  // namespace

PBT(closest_centers, "several centres asked for", 2000, 50000) {
  auto x = cluster_data(c, 200);
  size_t nc = 1 + c.raw(c.flip() ? 5 : 40), k = 1 + c.raw(nc - 1);
  std::vector<float> cent(nc * x.dim);
  pbt::Rng r(c.seed());
  for (size_t j = 0; j < nc; ++j)
    for (uint32_t t = 0; t < x.dim; ++t) cent[j * x.dim + t] = r.below(3) ? x.row(r.below(x.n))[t] : static_cast<float>(r.range(-5, 5));
  std::vector<uint32_t> out(x.n * k + 1, 77);
  compute_closest_centers(x.v.data(), x.n, x.dim, cent.data(), nc, k, out.data());
  c.note(nc, " centres, ", k, " asked for");
  check_closest(c, x, cent.data(), nc, k, out.data());
  c.check(out.back() == 77, "wrote past the answer");
  c.check(throws([&] { compute_closest_centers(x.v.data(), x.n, x.dim, cent.data(), nc, 0, out.data()); }), "k = 0 accepted");
  c.check(throws([&] { compute_closest_centers(x.v.data(), x.n, x.dim, cent.data(), nc, nc + 1, out.data()); }), "k above the number of centres accepted");
  std::vector<float> norms(x.n + 1, -7);
  compute_vecs_l2sq(x.v.data(), x.n, x.dim, norms.data());
  for (size_t i = 0; i < x.n; ++i) {
    double want = 0;
    for (uint32_t t = 0; t < x.dim; ++t) want += static_cast<double>(x.row(i)[t]) * x.row(i)[t];
    c.check(std::fabs(norms[i] - want) <= 1e-5 * want, "norm of point ", i, ": ", norms[i], " instead of ", want);
  }
  c.check(norms.back() == -7, "wrote past the norms");
  c.nontrivial(k > 1);
}

PBT(closest_centers_blocks, "more points than one block", 3, 20, pbt::Opts{.hang_s = 120}) {
  auto x = gaussian(c, 65536 + c.raw(70000), 2);
  std::vector<float> cent{0, 0, 1, 1, -1, 0.5f, 2, -2};
  size_t k = 1 + c.raw(2);
  std::vector<uint32_t> out(x.n * k);
  compute_closest_centers(x.v.data(), x.n, x.dim, cent.data(), 4, k, out.data());
  check_closest(c, x, cent.data(), 4, k, out.data());
  c.nontrivial(x.n > 65536);
}

PBT(kmeans, "Lloyd steps moved the centres", 1200, 30000) {
  auto x = cluster_data(c, 150);
  size_t nc = 1 + c.raw(std::min<size_t>(x.n, 12) - 1);
  KMeansParams p;
  p.num_centers = nc, p.seed = c.raw(1000), p.max_reps = c.raw(8);
  std::vector<float> a(nc * x.dim + 1, 5), b(nc * x.dim + 1, 5);
  kmeans_train(x.v.data(), x.n, x.dim, p, a.data());
  kmeans_train(x.v.data(), x.n, x.dim, p, b.data());
  c.check(a == b, "two runs with one seed differ");
  c.check(a.back() == 5, "wrote past the centres");
  c.note(nc, " centres, ", p.max_reps, " steps");
  // initial centres are data points, distinct ones as long as there are any
  std::mt19937_64 rng(p.seed);
  std::vector<float> init(nc * x.dim);
  kmeanspp_init(x.v.data(), x.n, x.dim, nc, rng, init.data());
  std::set<std::vector<float>> points, picked;
  for (size_t i = 0; i < x.n; ++i) points.insert({x.row(i), x.row(i) + x.dim});
  for (size_t j = 0; j < nc; ++j) {
    std::vector<float> v(init.begin() + static_cast<long>(j * x.dim), init.begin() + static_cast<long>((j + 1) * x.dim));
    c.check(points.count(v) == 1, "initial centre ", j, " is no data point");
    picked.insert(v);
  }
  c.check(picked.size() == std::min(nc, points.size()), "only ", picked.size(), " distinct initial centres of ", nc, " with ", points.size(), " distinct points");
  // one step: means of the assigned points, residual not above the one before
  auto cent = init;
  auto cost = [&](const std::vector<float> &ce) {
    double s = 0;
    for (size_t i = 0; i < x.n; ++i) {
      double m = INFINITY;
      for (size_t j = 0; j < nc; ++j) m = std::min(m, dist64(x.row(i), ce.data() + j * x.dim, x.dim));
      s += m;
    }
    return s;
  };
  double before = cost(cent), scale = 1;
  for (float v : x.v) scale += static_cast<double>(v) * v;
  bool moved = false;
  for (int step = 0; step < 4; ++step) {
    std::vector<uint32_t> own(x.n);
    compute_closest_centers(x.v.data(), x.n, x.dim, cent.data(), nc, 1, own.data());
    auto next = cent;
    double res = lloyds_iter(x.v.data(), x.n, x.dim, next.data(), nc);
    double want_res = 0;
    for (size_t j = 0; j < nc; ++j) {
      std::vector<double> mean(x.dim);
      size_t cnt = 0;
      for (size_t i = 0; i < x.n; ++i)
        if (own[i] == j) {
          ++cnt;
          for (uint32_t t = 0; t < x.dim; ++t) mean[t] += x.row(i)[t];
        }
      for (uint32_t t = 0; t < x.dim && cnt; ++t)
        c.check(std::fabs(next[j * x.dim + t] - mean[t] / static_cast<double>(cnt)) <= 1e-5 * (1 + std::fabs(mean[t])), "centre ", j, " is not the mean of its points");
    }
    for (size_t i = 0; i < x.n; ++i) want_res += dist64(x.row(i), next.data() + own[i] * x.dim, x.dim);
    c.check(std::fabs(res - want_res) <= 1e-4 * want_res + 1e-5 * scale, "residual ", res, " instead of ", want_res);
    c.check(res <= before + 1e-4 * scale, "a step raised the residual from ", before, " to ", res);
    moved = moved || next != cent;
    before = res, cent = next;
  }
  p.num_centers = x.n + 1;
  std::vector<float> big((x.n + 1) * x.dim);
  c.check(throws([&] { kmeans_train(x.v.data(), x.n, x.dim, p, big.data()); }), "more centres than points accepted");
  p.num_centers = 0;
  c.check(throws([&] { kmeans_train(x.v.data(), x.n, x.dim, p, big.data()); }), "no centres accepted");
  c.nontrivial(moved);
}

PBT(partition_budget, "more than three parts were needed", 500, 15000) {
  auto x = cluster_data(c, 200);
  if (x.n < 3) x = gaussian(c, 3, 2);
  BudgetLoopParams p;
  p.graph_degree = static_cast<uint32_t>(1 + c.raw(60));
  p.k_base = 1 + c.raw(2);
  p.sampling_rate = c.pick({1.0, 0.5, 0.1});
  p.base_kmeans.seed = c.raw(99);
  if (c.chance(1, 4)) p.max_num_parts = 3 + c.raw(6);
  double whole = estimate_ram_usage_bytes(static_cast<size_t>(static_cast<double>(x.n) / p.sampling_rate), x.dim, 4, p.graph_degree);
  uint32_t up = (x.dim + 7) / 8 * 8;
  double rows = std::floor(static_cast<double>(x.n) / p.sampling_rate);
  double formula = 1.1 * rows * (up * 4.0 + p.graph_degree * 4.0 * static_cast<double>(1.3f) + sizeof(std::mutex) + 8);
  c.check(std::fabs(whole - formula) <= 1e-6 * formula, "memory estimate ", whole, " instead of ", formula);
  p.ram_budget_gib = whole * (0.1 + 1.5 * static_cast<double>(c.raw(100)) / 100) / (1024.0 * 1024 * 1024);
  auto test = c.flip() ? x : gaussian(c, 50, x.dim);
  std::vector<float> piv;
  size_t parts = 0;
  try {
    parts = determine_num_parts_with_ram_budget(x.v.data(), x.n, test.v.data(), test.n, x.dim, p, piv);
  } catch (const std::runtime_error &) {
  }
  auto fits = [&](size_t np, std::vector<float> &out) {
    KMeansParams k = p.base_kmeans;
    k.num_centers = np;
    out.assign(np * x.dim, 0);
    kmeans_train(x.v.data(), x.n, x.dim, k, out.data());
    std::vector<uint32_t> own(test.n * p.k_base);
    compute_closest_centers(test.v.data(), test.n, x.dim, out.data(), np, p.k_base, own.data());
    std::vector<size_t> cnt(np);
    for (uint32_t o : own) ++cnt[o];
    auto est = estimate_cluster_sizes(test.v.data(), test.n, x.dim, out.data(), np, p.k_base, p.sampling_rate);
    double worst = 0;
    for (size_t j = 0; j < np; ++j) {
      c.check(est[j] == static_cast<size_t>(static_cast<double>(cnt[j]) * (1.0 / p.sampling_rate)), "part ", j, " is estimated at ", est[j], " rows from ", cnt[j]);
      worst = std::max(worst, estimate_ram_usage_bytes(est[j], x.dim, 4, p.graph_degree));
    }
    return worst <= p.ram_budget_gib * 1024.0 * 1024 * 1024;
  };
  std::vector<float> out;
  size_t want = 0;
  for (size_t np = 3; np <= p.max_num_parts && np <= x.n; np += 2)
    if (fits(np, out)) {
      want = np;
      break;
    }
  c.note("budget ", p.ram_budget_gib, " degree ", p.graph_degree, " copies ", p.k_base);
  c.check(parts == want, parts, " parts instead of ", want);
  if (want) c.check(piv == out, "the returned centres are not those of the chosen partition");
  p.ram_budget_gib = 0;
  c.check(throws([&] { determine_num_parts_with_ram_budget(x.v.data(), x.n, test.v.data(), test.n, x.dim, p, piv); }), "a zero budget was accepted");
  c.nontrivial(want != 3);
}

// ---- shards -----------------------------------------------------------------------------------------------------
PBT(shard_assignment, "several shards and blocks", 800, 20000) {
  auto x = cluster_data(c, 150);
  auto d = c.dir();
  size_t nc = 1 + c.raw(7), k = 1 + c.raw(nc - 1);
  std::vector<float> cent(nc * x.dim);
  pbt::Rng r(c.seed());
  for (auto &t : cent) t = static_cast<float>(r.gauss() * 3);
  spit(d / "data", fbin(x.v, static_cast<uint32_t>(x.n), x.dim));
  size_t block = c.flip() ? 1 + c.raw(20) : 1000000;
  auto prefix = c.flip() ? d / "s" : d / "w" / "s";
  auto a = shard_data_by_centroids(d / "data", cent.data(), nc, k, prefix, block);
  c.note(nc, " shards, ", k, " copies, block ", block);
  c.check(a.dim == x.dim && a.counts.size() == nc && a.data_paths.size() == nc && a.idmap_paths.size() == nc, "wrong result shape");
  std::vector<std::set<uint32_t>> in(x.n);
  for (size_t s = 0; s < nc; ++s) {
    c.check(a.data_paths[s] == shard_data_path(prefix, s) && a.idmap_paths[s] == shard_idmap_path(prefix, s), "unexpected shard paths");
    auto ids = slurp(a.idmap_paths[s]), data = slurp(a.data_paths[s]);
    uint32_t cnt = a.counts[s];
    c.check(get<uint32_t>(ids, 0) == cnt && get<uint32_t>(ids, 4) == 1 && ids.size() == 8 + 4ull * cnt, "id map of shard ", s, " does not hold ", cnt, " ids");
    c.check(get<uint32_t>(data, 0) == cnt && get<uint32_t>(data, 4) == x.dim && data.size() == 8 + 4ull * cnt * x.dim, "data of shard ", s, " does not hold ", cnt, " rows");
    uint32_t prev = 0;
    for (uint32_t i = 0; i < cnt; ++i) {
      uint32_t id = get<uint32_t>(ids, 8 + 4 * i);
      c.check(id < x.n && (i == 0 || id > prev), "ids of shard ", s, " are not ascending");
      c.check(std::memcmp(data.data() + 8 + 4ull * i * x.dim, x.row(id), 4 * x.dim) == 0, "row ", i, " of shard ", s, " is not point ", id);
      in[id].insert(static_cast<uint32_t>(s)), prev = id;
    }
  }
  for (size_t i = 0; i < x.n; ++i) {
    c.check(in[i].size() == k, "point ", i, " is in ", in[i].size(), " shards");
    double err = 0, far = 0, out = INFINITY;
    for (size_t s = 0; s < nc; ++s) {
      double t = dist64(x.row(i), cent.data() + s * x.dim, x.dim);
      err = std::max(err, err_of(x, x.row(i), cent.data() + s * x.dim));
      if (in[i].count(static_cast<uint32_t>(s))) far = std::max(far, t);
      else out = std::min(out, t);
    }
    c.check(far <= out + err, "point ", i, " is in a shard at ", far, " but not in one at ", out);
  }
  auto cut = fbin(x.v, static_cast<uint32_t>(x.n), x.dim);
  cut.resize(c.raw(cut.size() - 1));
  spit(d / "cut", cut);
  c.check(throws([&] { shard_data_by_centroids(d / "cut", cent.data(), nc, k, d / "cut_s", block); }), "a truncated data file was accepted");
  c.check(throws([&] { shard_data_by_centroids(d / "data", cent.data(), nc, 0, d / "bad", block); }) && throws([&] { shard_data_by_centroids(d / "data", cent.data(), nc, nc + 1, d / "bad", block); }),
          "an invalid number of copies was accepted");
  c.nontrivial(nc > 1 && block < x.n);
}

PBT(streaming_medoid, "several blocks", 1500, 30000) {
  auto x = cluster_data(c, 150);
  auto p = c.dir() / "data";
  spit(p, fbin(x.v, static_cast<uint32_t>(x.n), x.dim));
  size_t block = c.flip() ? 1 + c.raw(20) : 1000000;
  uint32_t got = compute_medoid_streaming(p, block);
  c.check(got < x.n, "medoid ", got, " of ", x.n);
  double a = off_centre(x, got), b = off_centre(x, medoid_by_definition(x));
  c.check(a <= b * (1 + 1e-6) + 1e-9, "the medoid is at ", a, " from the mean, another point at ", b, " (block ", block, ")");
  c.nontrivial(block < x.n);
}

PBT(shard_merge, "a node with too many neighbours over several shards", 1500, 40000) {
  size_t n = c.size(2, 60), ns = 1 + c.raw(4);
  uint32_t R = static_cast<uint32_t>(1 + c.raw(12)), medoid = static_cast<uint32_t>(c.raw(n - 1));
  auto d = c.dir();
  pbt::Rng r(c.seed());
  std::vector<std::vector<uint32_t>> maps(ns);
  bool gaps = c.chance(1, 6);
  for (uint32_t i = 0; i < n; ++i) {
    bool any = false;
    for (auto &m : maps)
      if (r.below(2)) m.push_back(i), any = true;
    if (!any && !(gaps && i + 1 < n)) maps[r.below(ns)].push_back(i);
  }
  for (auto &m : maps)
    if (m.empty()) m.push_back(static_cast<uint32_t>(r.below(n)));
  std::vector<std::set<uint32_t>> want(n);
  std::vector<fs::path> gp, ip;
  std::vector<uint32_t> meds;
  for (size_t s = 0; s < ns; ++s) {
    auto &m = maps[s];
    uint32_t deg = static_cast<uint32_t>(1 + r.below(8));
    auto g = m.size() < 2 ? Adj(m.size()) : random_graph(c, m.size(), deg, true);
    uint32_t start = static_cast<uint32_t>(r.below(m.size()));
    meds.push_back(m[start]);
    for (size_t i = 0; i < m.size(); ++i)
      for (uint32_t t : g[i]) want[m[i]].insert(m[t]);
    gp.push_back(d / ("g" + std::to_string(s))), ip.push_back(d / ("i" + std::to_string(s)));
    save_graph(g, gp.back(), deg, start);
    std::string ids;
    put<uint32_t>(ids, static_cast<uint32_t>(m.size())), put<uint32_t>(ids, 1);
    for (uint32_t i : m) put(ids, i);
    spit(ip.back(), ids);
  }
  uint64_t seed = c.raw(99);
  auto size = merge_shards(gp, ip, d / "out", R, medoid, seed);
  auto bytes = slurp(d / "out");
  uint32_t deg, start;
  auto g = parse(c, bytes, deg, start);
  c.note(n, " nodes in ", ns, " shards, R ", R);
  c.check(size == bytes.size(), "returned size ", size, ", file has ", bytes.size());
  c.check(deg == R && start == medoid, "header gives degree ", deg, " and entry ", start);
  c.check(g.size() == n, g.size(), " nodes instead of ", n);
  bool cut = false;
  for (size_t i = 0; i < n; ++i) {
    std::set<uint32_t> u(g[i].begin(), g[i].end());
    c.check(u.size() == g[i].size(), "node ", i, " has a repeated neighbour");
    bool in_shard = std::any_of(maps.begin(), maps.end(), [&](auto &m) { return std::find(m.begin(), m.end(), i) != m.end(); });
    if (in_shard && want[i].empty()) {  // must not be left without edges, which the reader refuses
      c.check(g[i].size() >= 1 && g[i].size() <= R && !u.count(static_cast<uint32_t>(i)) && *u.rbegin() < n, "node ", i, ", alone in its shards, links to ", list(g[i]));
      continue;
    }
    c.check(g[i].size() == std::min<size_t>(R, want[i].size()), "node ", i, " has ", g[i].size(), " of ", want[i].size(), " neighbours");
    for (uint32_t t : u) c.check(want[i].count(t) == 1, "node ", i, " got neighbour ", t, " from no shard");
    cut = cut || want[i].size() > R;
  }
  auto mb = slurp((d / "out").string() + "_medoids.bin");
  c.check(mb.size() == 8 + 4 * ns && get<uint32_t>(mb, 0) == ns && get<uint32_t>(mb, 4) == 1, "the medoid file does not hold ", ns, " entries");
  for (size_t s = 0; s < ns; ++s) c.check(get<uint32_t>(mb, 8 + 4 * s) == meds[s], "medoid of shard ", s);
  merge_shards(gp, ip, d / "sub" / "again", R, medoid, seed);
  c.check(slurp(d / "sub" / "again") == bytes, "a second merge with the same seed differs");
  // damaged inputs
  size_t s = c.raw(ns - 1);
  auto b = slurp(c.flip() ? gp[s] : ip[s]);
  bool graph = b == slurp(gp[s]);
  switch (c.raw(2)) {
    case 0: b.resize(c.flip() ? b.size() - 1 : c.raw(b.size() - 1)); break;
    case 1: {
      uint32_t bad = static_cast<uint32_t>(maps[s].size() + c.raw(3));
      if (graph) std::memcpy(b.data() + 12, &bad, 4);
      else b.resize(b.size() - 1);
      break;
    }
    default: {
      uint32_t bad = graph ? 0xFFFFFFFFu : 2;
      std::memcpy(b.data() + (graph ? 12 : 4), &bad, 4);
    }
  }
  spit(graph ? gp[s] : ip[s], b);
  c.check(throws([&] { merge_shards(gp, ip, d / "out3", R, medoid, seed); }), "a damaged shard ", graph ? "graph" : "id map", " was merged");
  c.nontrivial(cut && ns > 1);
}

// ---- top level --------------------------------------------------------------------------------------------------
PBT(build_vamana_file, "a sharded build", 160, 4000, pbt::Opts{.hang_s = 200}) {
  Data x;
  if (c.chance(1, 3)) x = lattice(c, 150);
  else {
    x = gaussian(c, c.size(1, c.flip() ? 60 : 600), static_cast<uint32_t>(1 + c.raw(12)));
    c.note(x.n, " gaussian points of dim ", x.dim);
  }
  auto d = c.dir();
  std::string data = d / "data", out = d / "o" / "graph.index";
  fs::create_directories(d / "o");
  spit(data, fbin(x.v, static_cast<uint32_t>(x.n), x.dim));
  BuildVamanaParams p;
  p.data_path = data, p.output_path = out;
  p.R = static_cast<uint32_t>(1 + c.raw(c.flip() ? 4 : 40)), p.L = p.R + static_cast<uint32_t>(c.raw(60));
  p.alpha = c.pick<float>({1.0f, 1.2f, 1.5f}), p.num_threads = static_cast<uint32_t>(c.raw(2)), p.seed = c.raw(1000);
  if (c.chance(1, 5)) p.sampling_rate = c.pick<float>({1.0f, 0.5f});
  double single = estimate_ram_usage_gib(x.n, x.dim, 4, p.R);
  bool sharded = c.chance(3, 4);
  p.build_dram_budget_gb = sharded ? static_cast<float>(single * (0.3 + 0.69 * static_cast<double>(c.raw(20)) / 20)) : 32.0f;
  sharded = single > p.build_dram_budget_gb;
  c.note("R ", p.R, " L ", p.L, " alpha ", p.alpha, " threads ", p.num_threads, sharded ? ", budget below the whole" : ", one shard", ", sampling ", p.sampling_rate);
  try {
    build_vamana(p);
  } catch (const std::runtime_error &e) {
    // too few points, or no partition fits the budget
    std::string w = e.what();
    bool allowed = sharded && (w.find("too small") != w.npos || w.find("num_parts") != w.npos);
    c.check(allowed, "the build failed: ", w);
    c.label("budget cannot be met");
    return;
  } catch (const std::exception &e) {
    c.fail("the build failed: ", e.what());
  }
  auto bytes = slurp(out);
  uint32_t deg, start;
  auto g = parse(c, bytes, deg, start);
  c.check(deg == p.R, "the header gives degree ", deg);
  check_graph(c, g, x.n, p.R, sharded ? "the merged graph" : "the graph");
  c.check(start < x.n, "entry point ", start);
  double a = off_centre(x, start), b = off_centre(x, medoid_by_definition(x));
  c.check(a <= b * (1 + 1e-6) + 1e-9, "the entry point is at ", a, " from the mean, another point at ", b);
  if (x.n > 1) {
    VamanaReader rd(out);
    c.check(rd.graph() == g, "the graph read back differs");
    if (p.R >= 24 && p.L >= 50 && x.dim >= 2 && x.n > 60 && p.alpha > 1.1f) {
      auto seen = reached(g, start);
      size_t lost = static_cast<size_t>(std::count(seen.begin(), seen.end(), 0));
      bool repeats = std::set<std::vector<float>>([&] {
                       std::set<std::vector<float>> s;
                       for (size_t i = 0; i < x.n; ++i) s.insert({x.row(i), x.row(i) + x.dim});
                       return s;
                     }()).size() < x.n;
      if (!repeats) c.check(lost * 20 <= x.n, lost, " of ", x.n, " nodes are unreachable");
    }
  }
  if (sharded) {
    auto cb = slurp(out + "_centroids.bin"), mb = slurp(out + "_medoids.bin");
    uint32_t np = get<uint32_t>(cb, 0);
    c.check(np >= 1 && get<uint32_t>(cb, 4) == x.dim && cb.size() == 8 + 4ull * np * x.dim, "the centroid file is malformed");
    c.check(get<uint32_t>(mb, 0) == np && mb.size() == 8 + 4ull * np, "the medoid file holds ", get<uint32_t>(mb, 0), " entries for ", np, " centroids");
    for (uint32_t i = 0; i < np; ++i) c.check(get<uint32_t>(mb, 8 + 4 * i) < x.n, "shard medoid out of range");
  }
  if (p.num_threads == 1) {
    std::string out2 = d / "o" / "again";
    auto q = p;
    q.output_path = out2;
    build_vamana(q);
    c.check(slurp(out2) == bytes, "a second single-threaded build differs");
  }
  c.label(sharded ? "sharded" : "single");
  c.nontrivial(sharded);
}

PBT(build_vamana_rejects, "always", 300, 2000) {
  auto x = gaussian(c, 20, 2);
  auto d = c.dir();
  std::string data = d / "data", out = d / "out";
  auto b = fbin(x.v, 20, 2);
  BuildVamanaParams p;
  p.data_path = data, p.output_path = out, p.R = 4, p.L = 8, p.num_threads = 1;
  if (c.flip()) p.build_dram_budget_gb = static_cast<float>(estimate_ram_usage_gib(20, 2, 4, 4) * 0.9);
  int what = static_cast<int>(c.raw(10));
  switch (what) {
    case 0: p.data_path = ""; break;
    case 1: p.output_path = ""; break;
    case 2: p.R = 0; break;
    case 3: p.L = 3; break;
    case 4: p.alpha = c.pick<float>({0.5f, 0.0f, -1.0f, NAN, INFINITY}); break;
    case 5: p.sampling_rate = c.pick<float>({0.0f, 1.5f, NAN}); break;
    case 6: b.resize(c.raw(b.size() - 1)); break;
    case 7: std::memset(b.data(), 0, 4); break;
    case 8: std::memset(b.data() + 4, 0, 4); break;
    case 9: {
      uint32_t n = 21 + static_cast<uint32_t>(c.raw(5));
      std::memcpy(b.data(), &n, 4);
      break;
    }
    default: p.data_path = out; break;
  }
  spit(data, b);
  bool threw = throws([&] { build_vamana(p); });
  c.check(threw, "an invalid build was accepted (case ", what, ")");
  if (what != 1) c.check(!fs::exists(out), "a refused build left a graph file (case ", what, ")");
  c.label("case " + std::to_string(what));
  c.nontrivial();
}
