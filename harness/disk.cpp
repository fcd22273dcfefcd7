// P12: disk collections against a brute-force model.
#include <cmath>
#include <limits>
#include <map>
#include <optional>
#include <set>

#include "gen.hpp"
#include "index/disk/disk_collection.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "main.hpp"

namespace fs = std::filesystem;
using namespace alaya::disk;
using alaya::MetricType;

namespace {

using Vec = std::vector<float>;
using Row = std::pair<uint64_t, Vec>;

double true_distance(MetricType m, const float *a, const float *b, size_t d, double *scale) {
  long double s = 0, t = 0, na = 0, nb = 0;
  for (size_t i = 0; i < d; ++i) {
    long double x = a[i], y = b[i];
    na += x * x;
    nb += y * y;
    if (m == MetricType::L2) {
      s += (x - y) * (x - y);
    } else {
      s += x * y;
      t += std::fabs(static_cast<double>(x * y));
    }
  }
  if (m == MetricType::L2) {
    *scale = static_cast<double>(s);
    return static_cast<double>(s);
  }
  if (m == MetricType::IP) {
    *scale = static_cast<double>(t);
    return static_cast<double>(-s);
  }
  *scale = 1;
  return static_cast<double>(-s / std::sqrt(na * nb));
}

struct Model {
  uint32_t dim;
  MetricType metric;
  DiskIndexType type;
  bool exact;
  size_t cap;
  VamanaSegmentBuildParams vp;
  std::vector<Row> flushed, pending;
  std::set<uint64_t> labels;
  bool reachable = true;  // every row of every graph segment can be reached from its entry point
};

// Walks the graph files: when all rows are reachable, an exhaustive search has to be exact.
bool graphs_reachable(const fs::path &root) {
  for (auto &e : fs::directory_iterator(root / "segments")) {
    auto g = e.path() / "graph.index";
    if (!fs::exists(g)) continue;
    alaya::vamana::VamanaReader rd(g);
    std::vector<bool> seen(rd.num_nodes());
    std::vector<uint32_t> todo{static_cast<uint32_t>(rd.start())};
    seen[rd.start()] = true;
    size_t n = 1;
    while (!todo.empty()) {
      uint32_t x = todo.back();
      todo.pop_back();
      for (uint32_t y : rd.graph()[x])
        if (!seen[y]) seen[y] = true, ++n, todo.push_back(y);
    }
    if (n != rd.num_nodes()) return false;
  }
  return true;
}

std::string show(const std::vector<DiskSearchHit> &h) {
  std::string s = "[";
  for (size_t i = 0; i < h.size() && i < 12; ++i) s += std::to_string(h[i].label) + "@" + std::to_string(h[i].distance) + " ";
  return s + (h.size() > 12 ? "...]" : "]");
}

// What a search must satisfy; `complete` says that no closer item may be missing.
void check_hits(pbt::Case &c, const Model &m, const Vec &q, uint64_t k, const std::vector<DiskSearchHit> &h, bool complete, const std::string &what) {
  std::map<uint64_t, const Vec *> by;
  for (auto &r : m.flushed) by[r.first] = &r.second;
  c.check(h.size() <= std::min<uint64_t>(k, m.flushed.size()), what, ": ", h.size(), " hits for k=", k, " of ", m.flushed.size());
  if (complete) c.check(h.size() == std::min<uint64_t>(k, m.flushed.size()), what, ": only ", h.size(), " hits for k=", k, " of ", m.flushed.size());
  std::set<uint64_t> seen;
  for (size_t i = 0; i < h.size(); ++i) {
    auto it = by.find(h[i].label);
    c.check(it != by.end(), what, ": label ", h[i].label, " was never flushed, in ", show(h));
    c.check(seen.insert(h[i].label).second, what, ": label ", h[i].label, " twice in ", show(h));
    double sc, d = true_distance(m.metric, q.data(), it->second->data(), m.dim, &sc);
    double tol = m.exact ? 0 : 1e-5 * sc + 1e-30;
    c.check(std::fabs(h[i].distance - d) <= tol, what, ": label ", h[i].label, " reported at ", h[i].distance, ", its distance is ", d);
    if (i)
      c.check(h[i - 1].distance < h[i].distance || (h[i - 1].distance == h[i].distance && h[i - 1].label < h[i].label), what,
              ": not in (distance, label) order at ", i, ": ", show(h));
  }
  if (!complete || h.empty()) return;
  if (m.exact) {
    std::vector<std::pair<double, uint64_t>> all;
    for (auto &r : m.flushed) {
      double sc;
      all.emplace_back(true_distance(m.metric, q.data(), r.second.data(), m.dim, &sc), r.first);
    }
    std::sort(all.begin(), all.end());
    for (size_t i = 0; i < h.size(); ++i)
      // a graph segment may cut off any of several equally distant rows
      c.check(m.type == DiskIndexType::Vamana ? all[i].first == h[i].distance : all[i].second == h[i].label, what, ": hit ", i, " is label ", h[i].label, ", the model says ", all[i].second, " at ", all[i].first, ": ", show(h));
    return;
  }
  for (auto &r : m.flushed) {
    if (seen.count(r.first)) continue;
    double sc, d = true_distance(m.metric, q.data(), r.second.data(), m.dim, &sc);
    c.check(d >= h.back().distance - 1e-5 * (sc + std::fabs(h.back().distance)) - 1e-30, what, ": label ", r.first, " at ", d, " is nearer than the last hit at ", h.back().distance);
  }
}

template <class F>
std::string thrown(F f) {
  try {
    f();
  } catch (const std::exception &e) {
    return *e.what() ? e.what() : "(empty message)";
  }
  return "";
}

void gen_vec(pbt::Case &c, pbt::Rng &r, const Model &m, float *out) {
  gen::fill(r, m.exact ? (r.below(3) ? gen::kSmallInt : (r.flip() ? gen::kOneHot : gen::kConst)) : std::array{gen::kGauss, gen::kUnit, gen::kMixedScale}[r.below(3)], out, m.dim);
  if (m.metric == MetricType::COS) {
    bool zero = std::all_of(out, out + m.dim, [](float v) { return v == 0; });
    if (zero) out[0] = 1;
  }
}

void check_queries(pbt::Case &c, pbt::Rng &r, const DiskCollection &col, const Model &m) {
  c.check(col.size() == m.flushed.size(), "size() is ", col.size(), " with ", m.flushed.size(), " flushed rows");
  c.check(col.dim() == m.dim, "dim() is ", col.dim(), " instead of ", m.dim);
  bool flat = m.type == DiskIndexType::Flat;
  size_t nq = 1 + r.below(3);
  for (size_t i = 0; i < nq; ++i) {
    Vec q(m.dim);
    if (!m.flushed.empty() && r.below(3) == 0)
      q = m.flushed[r.below(m.flushed.size())].second;
    else
      gen_vec(c, r, m, q.data());
    DiskSearchOptions o;
    size_t n = m.flushed.size();
    switch (r.below(6)) {
      case 0: o.top_k = 1; break;
      case 1: o.top_k = static_cast<uint32_t>(n ? n : 1); break;
      case 2: o.top_k = static_cast<uint32_t>(n + 1 + r.below(20)); break;
      case 3: o.top_k = r.below(4) ? static_cast<uint32_t>(1 + n / 2) : UINT32_MAX; break;
      default: o.top_k = static_cast<uint32_t>(1 + r.below(n + 1)); break;
    }
    o.ef = r.flip() ? static_cast<uint32_t>(1 + r.below(n + 4)) : static_cast<uint32_t>(n + 1 + r.below(100));
    auto h = col.search(q.data(), o);
    check_hits(c, m, q, o.top_k, h, flat || (m.reachable && o.ef >= n), "search");
    if (!flat && !m.flushed.empty()) c.check(!h.empty(), "a graph search over ", n, " rows found nothing");
    if (!flat) c.label(m.reachable ? "graph-reachable" : "graph-with-orphans");
    // searching is read-only and repeatable
    auto h2 = col.search(q.data(), o);
    bool same = h.size() == h2.size();
    for (size_t j = 0; same && j < h.size(); ++j) same = h[j].label == h2[j].label && h[j].distance == h2[j].distance;
    c.check(same, "the same search twice gives ", show(h), " and then ", show(h2));
  }
  // batch search agrees with single searches
  if (r.below(2) == 0) {
    size_t nb = r.below(9);
    DiskSearchOptions o;
    o.top_k = static_cast<uint32_t>(1 + r.below(m.flushed.size() + 3));
    o.ef = static_cast<uint32_t>(1 + r.below(m.flushed.size() + 3));
    Vec qs(nb * m.dim);
    for (size_t i = 0; i < nb; ++i) gen_vec(c, r, m, qs.data() + i * m.dim);
    bool with_d = r.below(4) != 0;
    uint32_t nt = static_cast<uint32_t>(1 + r.below(6));
    gen::Exact<uint64_t> ol(nb * o.top_k);
    gen::Exact<float> od(nb * o.top_k);
    std::fill_n(ol.p, nb * o.top_k, UINT64_MAX);
    std::fill_n(od.p, nb * o.top_k, -12345.0f);
    bool bad = nb > 0 && !m.flushed.empty() && r.below(8) == 0;
    if (bad) {
      qs[r.below(nb) * m.dim + r.below(m.dim)] = std::numeric_limits<float>::quiet_NaN();
      auto e = thrown([&] { col.batch_search(qs.data(), nb, o, nt, ol.p, with_d ? od.p : nullptr); });
      c.check(!e.empty(), "batch search of ", nb, " queries with ", nt, " threads accepted a NaN query");
      c.label("batch-with-nan");
    } else {
      col.batch_search(qs.data(), nb, o, nt, ol.p, with_d ? od.p : nullptr);
      for (size_t i = 0; i < nb; ++i) {
        auto h = col.search(qs.data() + i * m.dim, o);
        for (size_t j = 0; j < o.top_k; ++j) {
          uint64_t el = j < h.size() ? h[j].label : UINT64_MAX;
          float ed = j < h.size() && with_d ? h[j].distance : -12345.0f;
          c.check(ol[i * o.top_k + j] == el, "batch search (", nb, " queries, ", nt, " threads) query ", i, " slot ", j, ": label ", ol[i * o.top_k + j], ", single search says ", el);
          c.check(od[i * o.top_k + j] == ed, "batch search (", nb, " queries, ", nt, " threads) query ", i, " slot ", j, ": distance ", od[i * o.top_k + j], ", single search says ", ed);
        }
      }
      c.label("batch");
    }
  }
  if (r.below(6) == 0) {
    Vec q(m.dim, 1.0f);
    DiskSearchOptions o;
    o.top_k = 0;
    c.check(!thrown([&] { col.search(q.data(), o); }).empty(), "top_k 0 was accepted");
    o.top_k = 2;
    uint64_t l[2];
    c.check(!thrown([&] { col.batch_search(q.data(), 1, o, 0, l, nullptr); }).empty(), "num_threads 0 was accepted");
    if (!m.flushed.empty()) {
      c.check(!thrown([&] { col.search(nullptr, o); }).empty(), "a null query was accepted");
      q[r.below(m.dim)] = r.flip() ? std::numeric_limits<float>::infinity() : std::numeric_limits<float>::quiet_NaN();
      c.check(!thrown([&] { col.search(q.data(), o); }).empty(), "a non-finite query was accepted");
      if (m.metric == MetricType::COS) {
        Vec z(m.dim, 0.0f);
        c.check(!thrown([&] { col.search(z.data(), o); }).empty(), "a zero query was accepted under COS");
      }
      if (!flat) {
        o.ef = 0;
        Vec f(m.dim, 1.0f);
        c.check(!thrown([&] { col.search(f.data(), o); }).empty(), "ef 0 was accepted");
      }
    }
  }
}

void history(pbt::Case &c, DiskIndexType type) {
  Model m;
  m.type = type;
  bool graph = type == DiskIndexType::Vamana;
  m.metric = graph ? MetricType::L2 : c.pick({MetricType::L2, MetricType::IP, MetricType::COS});
  m.dim = static_cast<uint32_t>(c.chance(1, 8) ? c.size(41, 200) : c.size(1, 40));
  m.exact = m.metric != MetricType::COS && c.chance(2, 3);
  if (m.exact) m.dim = std::min<uint32_t>(m.dim, 64);
  const uint64_t per_row = m.dim * 4ULL + 8;
  size_t cap_rows = c.chance(1, 3) ? c.size(1, 12) : 0;
  m.cap = cap_rows ? 2 * per_row * cap_rows + c.raw(2 * per_row - 1) : DiskCollection::kDefaultMaxPendingBytes;
  m.vp.R = static_cast<uint32_t>(c.size(1, 24));
  m.vp.L = m.vp.R + static_cast<uint32_t>(c.size(0, 40));
  m.vp.alpha = c.pick({1.0f, 1.2f, 1.5f, 2.0f});
  m.vp.num_threads = static_cast<uint32_t>(c.raw(3));
  c.note("type=", index_type_to_string(type), " metric=", static_cast<int>(m.metric), " dim=", m.dim, " cap=", m.cap, " R=", m.vp.R, " L=", m.vp.L);
  pbt::Rng r(c.seed());
  auto root = c.dir() / "col";
  std::optional<DiskCollection> col;
  col.emplace(root, m.dim, m.metric, type, m.cap, m.vp);
  size_t steps = c.size(6, 30);
  uint64_t next_label = r.below(100);
  size_t reopens = 0, flushes = 0, rejects = 0;
  bool poisoned = false;  // pending rows that no flush accepts
  for (size_t s = 0; s < steps; ++s) {
    switch (poisoned && c.chance(1, 3) ? 2 : c.weighted({8, 5, 2, 1, 1})) {
      case 0: {  // add
        size_t n = c.chance(1, 10) ? 0 : c.size(1, graph ? 24 : 12);
        std::vector<Row> rows(n);
        bool nan_row = false, dup = false;
        size_t odd = c.raw(24);
        for (auto &[l, v] : rows) {
          l = r.below(5) ? next_label++ : (r.next() | (r.flip() ? 1ULL << 63 : 0));
          while (m.labels.count(l) || std::any_of(m.pending.begin(), m.pending.end(), [&](auto &p) { return p.first == l; })) l = r.next();
          v.resize(m.dim);
          gen_vec(c, r, m, v.data());
        }
        if (n && odd == 0 && !m.flushed.empty()) rows[r.below(n)].first = m.flushed[r.below(m.flushed.size())].first, dup = true;
        if (n && odd == 1 && !m.pending.empty()) rows[r.below(n)].first = m.pending[r.below(m.pending.size())].first, dup = true;
        if (n > 1 && odd == 2) rows[n - 1].first = rows[0].first, dup = true;
        if (n && odd == 3) rows[r.below(n)].second[r.below(m.dim)] = std::array{std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity()}[r.below(3)], nan_row = true;
        if (n && odd == 4 && m.metric == MetricType::COS) std::fill(rows[0].second.begin(), rows[0].second.end(), 0.0f), nan_row = true;
        gen::Exact<float> vb(n * m.dim);
        gen::Exact<uint64_t> lb(n);
        for (size_t i = 0; i < n; ++i) {
          lb[i] = rows[i].first;
          std::copy(rows[i].second.begin(), rows[i].second.end(), vb.p + i * m.dim);
        }
        bool over = 2 * (m.pending.size() + n) * per_row > m.cap;
        auto e = thrown([&] { col->add_batch(vb.p, lb.p, n); });
        if (n && over) {
          c.check(!e.empty(), "add of ", n, " rows on ", m.pending.size(), " pending ones was accepted over the limit of ", m.cap, " bytes (row ", per_row, ")");
          c.label("over-limit");
          ++rejects;
        } else {
          // invalid rows may be refused here or by the flush
          if (!e.empty()) {
            c.check(dup || nan_row, "a valid add of ", n, " rows failed: ", e);
            ++rejects;
          } else {
            m.pending.insert(m.pending.end(), rows.begin(), rows.end());
            poisoned |= dup || nan_row;
          }
        }
        break;
      }
      case 1: {  // flush
        bool few = graph && m.pending.size() == 1;
        auto e = thrown([&] { col->flush(); });
        if (m.pending.empty()) {
          c.check(e.empty(), "flush of nothing failed: ", e);
        } else if (poisoned || few) {
          c.check(!e.empty(), "flush accepted duplicate labels, invalid vectors or too few rows");
          c.label(few ? "few-rows" : "flush-refused");
          ++rejects;
        } else {
          c.check(e.empty(), "flush of ", m.pending.size(), " valid rows failed: ", e);
          for (auto &row : m.pending) m.labels.insert(row.first);
          m.flushed.insert(m.flushed.end(), m.pending.begin(), m.pending.end());
          if (graph) m.reachable = graphs_reachable(root);
          m.pending.clear();
          ++flushes;
        }
        break;
      }
      case 2: {  // close and open
        if (c.flip()) {
          DiskCollection moved = std::move(*col);
          col.emplace(std::move(moved));
        }
        col.reset();
        col.emplace(DiskCollection::open(root));
        m.pending.clear();
        poisoned = false;
        ++reopens;
        break;
      }
      case 3: {  // calls that are always refused
        auto e = thrown([&] { DiskCollection d(root, m.dim, m.metric, type, m.cap, m.vp); });
        c.check(!e.empty(), "creating a collection over an existing one was accepted");
        e = thrown([&] { auto d = DiskCollection::open(root); });
        c.check(!e.empty(), "a second open of an open collection was accepted");
        e = thrown([&] { col->add_batch(nullptr, nullptr, 1); });
        c.check(!e.empty(), "null buffers were accepted");
        Vec v(m.dim, 1.0f);
        uint64_t l = 1;
        e = thrown([&] { col->add_batch(v.data(), &l, UINT64_MAX / (1 + c.raw(3))); });
        c.check(!e.empty(), "an impossible row count was accepted");
        e = thrown([&] { col->import_laser_segment(c.dir() / "no", &l, 1); });
        c.check(!e.empty(), "a LASER import into another kind of collection was accepted");
        e = thrown([&] { col->mark_deleted(next_label); });
        c.check(!e.empty(), "mark_deleted claims to work");
        ++rejects;
        break;
      }
      default: {  // bad creations leave nothing that opens
        auto p = c.dir() / "bad";
        fs::remove_all(p);
        auto e = thrown([&] { DiskCollection d(p, 0, m.metric, type); });
        c.check(!e.empty(), "dimension 0 was accepted");
        e = thrown([&] { DiskCollection d(p, m.dim, MetricType::NONE, type); });
        c.check(!e.empty(), "metric NONE was accepted");
        VamanaSegmentBuildParams bp;
        switch (c.raw(3)) {
          case 0: bp.R = 0; break;
          case 1: bp.L = bp.R - 1; break;
          case 2: bp.alpha = 0.5f; break;
          default: bp.alpha = std::numeric_limits<float>::quiet_NaN(); break;
        }
        e = thrown([&] { DiskCollection d(p, m.dim, MetricType::L2, DiskIndexType::Vamana, m.cap, bp); });
        c.check(!e.empty(), "bad graph parameters were accepted");
        c.check(!fs::exists(p), "a refused creation left ", p.string());
        e = thrown([&] { auto d = DiskCollection::open(p); });
        c.check(!e.empty(), "opening a missing collection succeeded");
        break;
      }
    }
    check_queries(c, r, *col, m);
  }
  // everything is still there after a last reopen
  col.reset();
  col.emplace(DiskCollection::open(root));
  m.pending.clear();
  check_queries(c, r, *col, m);
  c.label("reopened", reopens > 0);
  c.label("several-segments", flushes > 1);
  c.label("rejected-calls", rejects > 0);
  c.label(m.exact ? "exact-arithmetic" : "float-arithmetic");
  c.nontrivial(flushes >= 2 && m.flushed.size() >= 5);
}
}  // namespace

PBT(disk_flat_history, "at least two flushes and five flushed rows", 400, 20000) { history(c, DiskIndexType::Flat); }
PBT(disk_vamana_history, "at least two flushes and five flushed rows", 100, 5000) { history(c, DiskIndexType::Vamana); }
