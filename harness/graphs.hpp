// Shared pieces of the graph index harnesses: data sets, exact answers, reachability, search drivers.
#pragma once
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <unordered_set>

#include "executor/jobs/graph_search_job.hpp"
#include "executor/scheduler.hpp"
#include "gen.hpp"
#include "index/graph/graph.hpp"
#include "index/graph/hnsw/hnsw_builder.hpp"
#include "space/raw_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"

namespace graphs {
using alaya::MetricType;
using pbt::Case;
using pbt::Rng;

inline constexpr float kNoDistance = std::numeric_limits<float>::max();

template <class T>
struct Data {
  size_t n = 0, dim = 0;
  MetricType metric = MetricType::L2;
  int style = 0;
  std::vector<T> v;
  const T *at(size_t i) const { return v.data() + i * dim; }
  // Coordinates are small integers, so every distance is exactly representable.
  double dist(const T *a, const T *b) const {
    double s = 0;
    for (size_t i = 0; i < dim; ++i) {
      double x = static_cast<double>(a[i]), y = static_cast<double>(b[i]);
      s += metric == MetricType::L2 ? (x - y) * (x - y) : -x * y;
    }
    return s;
  }
};

template <class T>
T coord(Rng &r, int span) {
  if constexpr (std::is_unsigned_v<T>) {
    return static_cast<T>(r.range(0, 2 * span));
  }
  return static_cast<T>(r.range(-span, span));
}

// Styles: 0 spread, 1 heavy duplication, 2 clusters, 3 on a line, 4 all equal.
template <class T>
void fill_point(Rng &r, int style, size_t dim, T *out) {
  int centre = static_cast<int>(r.range(0, 2));
  int t = static_cast<int>(r.range(0, 60));
  for (size_t j = 0; j < dim; ++j) {
    double x = 0;
    switch (style) {
      case 0: x = static_cast<double>(r.range(0, 60)); break;
      case 1: x = static_cast<double>(r.range(0, 1)); break;
      case 2: x = centre * 25 + static_cast<double>(r.range(0, 3)); break;
      case 3: x = t; break;
      default: x = 7; break;
    }
    if (!std::is_unsigned_v<T> && style != 4) {
      x -= 30;
    }
    out[j] = static_cast<T>(x);
  }
}

template <class T>
Data<T> make_data(Case &c, Rng &r, size_t n, size_t dim, MetricType metric, int style) {
  (void)c;
  Data<T> d;
  d.n = n;
  d.dim = dim;
  d.metric = metric;
  d.style = style;
  d.v.resize(n * dim + 1);
  for (size_t i = 0; i < n; ++i) {
    fill_point(r, style, dim, d.v.data() + i * dim);
  }
  return d;
}

// Ids a best-first search can reach from where this query starts.
struct FakeVisited {
  std::set<uint64_t> s;
  bool get(uint64_t i) const { return s.count(i) != 0; }
  void set(uint64_t i) { s.insert(i); }
};
struct FakePool {
  FakeVisited vis_;
  std::vector<uint64_t> seeds;
  void insert(uint64_t id, float) { seeds.push_back(id); }
};
template <class Graph, class Qc>
std::set<uint64_t> reach(Case &c, Graph &g, const Qc &qc, size_t slots) {
  FakePool p;
  g.initialize_search(p, qc);
  std::set<uint64_t> seen(p.seeds.begin(), p.seeds.end());
  std::vector<uint64_t> todo = p.seeds;
  using Id = std::remove_cvref_t<decltype(g.at(0, 0))>;
  while (!todo.empty()) {
    uint64_t u = todo.back();
    todo.pop_back();
    c.check(u < slots, "the graph references slot ", u, " of ", slots);
    for (uint32_t i = 0; i < g.max_nbrs_; ++i) {
      Id v = g.at(static_cast<Id>(u), i);
      if (v == static_cast<Id>(-1)) {
        break;
      }
      if (seen.insert(v).second) {
        todo.push_back(v);
      }
    }
  }
  return seen;
}

// Neighbour lists hold existing slots, without repeats or self-links; `slots` slots exist.
template <class Graph>
void check_edges(Case &c, Graph &g, size_t slots, bool allow_repeat = false) {
  using Id = std::remove_cvref_t<decltype(g.at(0, 0))>;
  for (size_t u = 0; u < slots; ++u) {
    std::set<uint64_t> s;
    for (uint32_t i = 0; i < g.max_nbrs_; ++i) {
      Id v = g.at(static_cast<Id>(u), i);
      if (v == static_cast<Id>(-1)) {
        break;
      }
      c.check(v < slots, "slot ", u, " has neighbour ", v, " but only ", slots, " slots exist");
      c.check(v != u, "slot ", u, " is its own neighbour");
      c.check(allow_repeat || s.insert(v).second, "slot ", u, " lists neighbour ", v, " twice");
    }
  }
}

inline void drive(coro::task<> &t) {
  while (!t.is_ready()) {
    t.resume();
  }
  t.promise().result();
}

// Runs the tasks on the real scheduler, as batched searches do.
inline void run_scheduled(std::vector<coro::task<>> &tasks, size_t workers) {
  std::vector<CpuID> cpus;
  size_t hw = std::max<size_t>(1, std::thread::hardware_concurrency());
  for (size_t i = 0; i < workers; ++i) {
    cpus.push_back(static_cast<CpuID>(i % hw));
  }
  alaya::Scheduler s(cpus);
  for (auto &t : tasks) {
    s.schedule(t.handle());
  }
  s.begin();
  s.join();
  for (auto &t : tasks) {
    t.promise().result();
  }
}

// One answer: the ids (and distances) a search wrote into a guarded buffer of k entries.
template <class Id>
struct Answer {
  std::vector<Id> ids;
  std::vector<float> dist;
  size_t count = 0;
};

template <class Id>
Answer<Id> blank(size_t k) {
  Answer<Id> a;
  a.ids.assign(k + 2, static_cast<Id>(0x5a5a5a5a));
  a.dist.assign(k + 2, -12345.5F);
  return a;
}

// Splits results from padding: valid ids first, then only the invalid marker; nothing past k written.
template <class Id>
void settle(Case &c, Answer<Id> &a, size_t k, bool with_dist, const char *what) {
  c.check(a.ids[k] == static_cast<Id>(0x5a5a5a5a) && a.ids[k + 1] == static_cast<Id>(0x5a5a5a5a), what, " wrote past its id buffer");
  c.check(a.dist[k] == -12345.5F && a.dist[k + 1] == -12345.5F, what, " wrote past its distance buffer");
  a.count = 0;
  while (a.count < k && a.ids[a.count] != static_cast<Id>(-1)) {
    ++a.count;
  }
  for (size_t i = a.count; i < k; ++i) {
    c.check(a.ids[i] == static_cast<Id>(-1), what, " left id ", a.ids[i], " at position ", i, " behind a gap");
    c.check(!with_dist || a.dist[i] == kNoDistance, what, " left distance ", a.dist[i], " for an absent result");
  }
  a.ids.resize(a.count);
  a.dist.resize(with_dist ? a.count : 0);
}
}  // namespace graphs
