// Graph indexes against exhaustive search: validity, order, exactness, agreement of every search entry point.
#include "graphs.hpp"
#include "index/graph/fusion_graph.hpp"
#include "index/graph/knng/nndescent.hpp"
#include "index/graph/nsg/nsg_builder.hpp"
#include "index/graph/qg/qg_builder.hpp"
#include "main.hpp"
#include "space/rabitq_space.hpp"
using namespace pbt;
using namespace graphs;

namespace {
uint32_t pick_ef(Case &c, size_t n, uint32_t k) {
  switch (c.raw(3)) {
    case 0: return k;
    case 1: return k + static_cast<uint32_t>(c.raw(8));
    case 2: return std::max<uint32_t>(k, static_cast<uint32_t>(n));
    default: return std::max<uint32_t>(k, static_cast<uint32_t>(n)) + static_cast<uint32_t>(c.raw(20));
  }
}

// Every way of asking the same question must give the same answer, and that answer must be right.
template <class Job, class T>
struct Asker {
  using Id = typename decltype(Job::space_)::element_type::IDTypeAlias;
  Case &c;
  Job &job;
  const Data<T> &data;
  bool reranks;
  std::set<uint64_t> removed{};

  Answer<Id> ids_only(std::vector<T> q, uint32_t k, uint32_t ef) {
    auto a = blank<Id>(k);
    job.search_solo(q.data(), a.ids.data(), k, ef);
    settle(c, a, k, false, "search_solo");
    return a;
  }
  Answer<Id> with_dist(std::vector<T> q, uint32_t k, uint32_t ef) {
    auto a = blank<Id>(k);
    job.search_solo(q.data(), a.ids.data(), a.dist.data(), k, ef);
    settle(c, a, k, true, "search_solo with distances");
    return a;
  }
  Answer<Id> coroutine(std::vector<T> q, uint32_t k, uint32_t ef, bool d) {
    auto a = blank<Id>(k);
    auto t = d ? job.search(q.data(), a.ids.data(), a.dist.data(), k, ef) : job.search(q.data(), a.ids.data(), k, ef);
    drive(t);
    settle(c, a, k, d, "coroutine search");
    return a;
  }
  Answer<Id> masked(std::vector<T> q, uint32_t k, uint32_t ef, const alaya::DynamicBitset *mask) {
    auto a = blank<Id>(k);
    job.search_solo(q.data(), a.ids.data(), alaya::SearchInfo{.topk_ = k, .ef_ = ef}, mask);
    settle(c, a, k, false, "masked search");
    return a;
  }

  std::vector<double> true_distances(const std::vector<T> &q, const std::vector<Id> &ids) {
    std::vector<double> r;
    for (auto id : ids) {
      r.push_back(data.dist(q.data(), data.at(id)));
    }
    return r;
  }

  void question(const std::vector<T> &q, uint32_t k, uint32_t ef) {
    auto qc = job.space_->get_query_computer(q.data());
    auto r = reach(c, *job.graph_, qc, data.n);
    c.note("k ", k, " ef ", ef, " reachable ", r.size(), "/", data.n);
    auto a = with_dist(q, k, ef);
    std::vector<double> all;
    for (auto id : r) {
      all.push_back(data.dist(q.data(), data.at(id)));
    }
    std::sort(all.begin(), all.end());
    check_answer(q, a, k, ef, r, all);
    auto b = ids_only(q, k, ef);
    c.check(a.ids == b.ids, "the search with distances returns other ids than the one without");
    auto d = coroutine(q, k, ef, true);
    c.check(d.ids == a.ids && d.dist == a.dist, "the coroutine search disagrees with the blocking one");
    auto e = coroutine(q, k, ef, false);
    c.check(e.ids == a.ids, "the ids-only coroutine search disagrees with the blocking one");
    auto f = masked(q, k, ef, nullptr);
    c.check(f.ids == a.ids, "a search without a mask disagrees with the plain search");
    if (ef == 0) {
      return;
    }
    // masked: nothing blocked, then a random part blocked
    alaya::DynamicBitset mask(data.n);
    auto g = masked(q, k, ef, &mask);
    c.check(std::set<Id>(g.ids.begin(), g.ids.end()).size() == g.count, "masked search repeats an id");
    auto gd = true_distances(q, g.ids), ad = true_distances(q, a.ids);
    if (!reranks) {
      c.check(gd == ad, "an empty mask changes the distances found");
    } else {  // the iterator also reranks candidates that left the pool, so it may only do better
      c.check(gd.size() == ad.size(), "an empty mask changes the number of results");
      for (size_t i = 0; i < gd.size(); ++i) {
        c.check(gd[i] <= ad[i], "an empty mask makes result ", i, " worse");
      }
    }
    std::set<uint64_t> open = r;
    uint64_t part = c.range(1, 10);
    for (size_t i = 0; i < data.n; ++i) {
      if (c.chance(part, 10)) {
        mask.set(i);
        open.erase(i);
      }
    }
    auto h = masked(q, k, ef, &mask);
    auto hd = true_distances(q, h.ids);
    c.check(std::set<Id>(h.ids.begin(), h.ids.end()).size() == h.count, "masked search repeats an id");
    c.check(std::is_sorted(hd.begin(), hd.end()), "masked search is out of order");
    for (auto id : h.ids) {
      c.check(open.count(id) == 1, "masked search returned blocked or unreachable id ", id);
    }
    if (ef >= data.n) {
      std::vector<double> want;
      for (auto id : open) {
        want.push_back(data.dist(q.data(), data.at(id)));
      }
      std::sort(want.begin(), want.end());
      want.resize(std::min<size_t>(want.size(), k));
      c.check(hd == want, "masked search with full width missed an open neighbour: ", hd.size(), " of ", want.size());
    }
  }

  void check_answer(const std::vector<T> &q, const Answer<Id> &a, uint32_t k, uint32_t ef, const std::set<uint64_t> &r,
                    const std::vector<double> &all) {
    size_t want = std::min<size_t>(k, std::min<size_t>(ef, r.size()));
    c.check(a.count == want, "returned ", a.count, " ids for k ", k, " ef ", ef, " with ", r.size(), " reachable");
    c.check(std::set<Id>(a.ids.begin(), a.ids.end()).size() == a.count, "an id is returned twice");
    auto td = true_distances(q, a.ids);
    for (size_t i = 0; i < a.count; ++i) {
      c.check(r.count(a.ids[i]) == 1, "id ", a.ids[i], " cannot be reached");
      c.check(static_cast<double>(a.dist[i]) == td[i], "id ", a.ids[i], " returned with distance ", a.dist[i], ", true distance ", td[i]);
      c.check(i == 0 || td[i - 1] <= td[i], "results out of order at ", i);
    }
    if (ef >= data.n) {
      for (size_t i = 0; i < a.count; ++i) {
        c.check(td[i] == all[i], "result ", i, " is at ", td[i], " although a reachable vector is at ", all[i]);
      }
    }
  }

  void refuses_small_ef(const std::vector<T> &q) {
    auto thrown = [&](auto f) {
      try {
        f();
      } catch (const std::invalid_argument &) {
        return true;
      }
      return false;
    };
    c.check(thrown([&] { ids_only(q, 3, 2); }), "ef below k accepted");
    c.check(thrown([&] { with_dist(q, 3, 2); }), "ef below k accepted with distances");
    c.check(thrown([&] { coroutine(q, 3, 2, true); }), "ef below k accepted by the coroutine");
  }

  // many queries at once on the real scheduler
  void batch(const std::vector<std::vector<T>> &qs, uint32_t k, uint32_t ef, size_t workers) {
    std::vector<Answer<Id>> got;
    auto copy = qs;
    for (size_t i = 0; i < qs.size(); ++i) {
      got.push_back(blank<Id>(k));
    }
    std::vector<coro::task<>> tasks;
    for (size_t i = 0; i < qs.size(); ++i) {
      tasks.push_back(job.search(copy[i].data(), got[i].ids.data(), got[i].dist.data(), k, ef));
    }
    run_scheduled(tasks, workers);
    for (size_t i = 0; i < qs.size(); ++i) {
      settle(c, got[i], k, true, "batched search");
      auto one = with_dist(qs[i], k, ef);
      c.check(one.ids == got[i].ids && one.dist == got[i].dist, "query ", i, " of a batch of ", qs.size(), " gets another answer than alone");
    }
  }
};

template <class T>
std::vector<T> make_query(Case &c, Rng &r, const Data<T> &d) {
  std::vector<T> q(d.dim);
  if (c.flip()) {
    size_t i = r.below(d.n);
    std::copy(d.at(i), d.at(i) + d.dim, q.begin());
  } else {
    fill_point(r, static_cast<int>(c.raw(3)), d.dim, q.data());
  }
  return q;
}

template <class T, class Id>
void hnsw(Case &c) {
  using Space = alaya::RawSpace<T, float, Id>;
  using Job = alaya::GraphSearchJob<Space>;
  MetricType metric = std::is_floating_point_v<T> ? c.pick({MetricType::L2, MetricType::IP, MetricType::COS}) : c.pick({MetricType::L2, MetricType::IP});
  size_t n = c.weighted({1, 6, 3}) == 0 ? 1 : c.flip() ? c.size(2, 40) : c.size(40, 260);
  size_t dim = c.size(1, 20);
  int style = static_cast<int>(c.weighted({6, 3, 3, 2, 1}));
  uint32_t R = static_cast<uint32_t>(c.pick({4, 8, 16, 32})), L = static_cast<uint32_t>(c.pick({8, 40, 200}));
  uint32_t threads = static_cast<uint32_t>(c.size(1, 4));
  size_t spare = c.raw(5);
  Rng r(c.seed());
  auto d = make_data<T>(c, r, n, dim, metric, style);
  c.note("n ", n, " dim ", dim, " metric ", static_cast<int>(metric), " style ", style, " R ", R, " L ", L, " threads ", threads);
  auto space = std::make_shared<Space>(static_cast<Id>(n + spare), dim, metric);
  space->fit(d.v.data(), static_cast<Id>(n));
  alaya::HNSWBuilder<Space> b(space, R, L);
  auto graph = std::shared_ptr<alaya::Graph<T, Id>>(b.build_graph(threads));
  check_edges(c, *graph, n);
  c.label(style == 0 ? "spread" : style == 1 ? "duplicates" : style == 2 ? "clusters" : style == 3 ? "line" : "equal");
  Job job(space, graph);
  Asker<Job, T> ask{c, job, d, false};
  std::vector<std::vector<T>> qs;
  uint32_t k = 1, ef = 1;
  for (size_t i = c.size(1, 4); i > 0; --i) {
    qs.push_back(make_query(c, r, d));
    k = static_cast<uint32_t>(c.flip() ? c.size(1, 10) : c.size(1, n + 5));
    ef = pick_ef(c, n, k);
    ask.question(qs.back(), k, ef);
  }
  if (c.chance(1, 3)) {
    ask.refuses_small_ef(qs[0]);
  }
  if (n > 10) {
    c.nontrivial();
  }
  if (c.chance(1, 3)) {
    c.label("batch");
    while (qs.size() < 12) {
      qs.push_back(make_query(c, r, d));
    }
    ask.batch(qs, k, ef, c.size(1, 4));
  }
  if (c.chance(1, 3)) {
    c.label("reload");
    auto dir = c.dir().string();
    graph->save(dir + "/g");
    space->save(dir + "/s");
    auto space2 = std::make_shared<Space>();
    auto graph2 = std::make_shared<alaya::Graph<T, Id>>();
    space2->load(dir + "/s");
    space2->set_metric_function();  // as every caller in the library does
    graph2->load(dir + "/g");
    Job job2(space2, graph2);
    Asker<Job, T> again{c, job2, d, false};
    for (auto &q : qs) {
      auto x = ask.with_dist(q, k, ef), y = again.with_dist(q, k, ef);
      c.check(x.ids == y.ids && x.dist == y.dist, "a reloaded index answers differently");
    }
    check_edges(c, *graph2, n);
  }
}

// Searching compressed codes, ranking by the stored vectors.
template <template <class, class, class, class, class> class Sq>
void reranked(Case &c) {
  using Raw = alaya::RawSpace<float, float, uint32_t>;
  using Space = Sq<float, float, uint32_t, alaya::SequentialStorage<uint8_t, uint32_t>, alaya::EmptyScalarData>;
  using Job = alaya::GraphSearchJob<Space, Raw>;
  MetricType metric = c.pick({MetricType::L2, MetricType::IP});
  size_t n = c.flip() ? c.size(2, 40) : c.size(40, 260), dim = c.size(1, 20);
  int style = static_cast<int>(c.weighted({6, 3, 3, 2, 1}));
  Rng r(c.seed());
  auto d = make_data<float>(c, r, n, dim, metric, style);
  c.note("n ", n, " dim ", dim, " metric ", static_cast<int>(metric), " style ", style);
  auto raw = std::make_shared<Raw>(static_cast<uint32_t>(n), dim, metric);
  auto sq = std::make_shared<Space>(static_cast<uint32_t>(n), dim, metric);
  raw->fit(d.v.data(), static_cast<uint32_t>(n));
  sq->fit(d.v.data(), static_cast<uint32_t>(n));
  alaya::HNSWBuilder<Raw> b(raw, static_cast<uint32_t>(c.pick({8, 16, 32})), 60);
  auto graph = std::shared_ptr<alaya::Graph<float, uint32_t>>(b.build_graph(static_cast<uint32_t>(c.size(1, 3))));
  bool refused = false;
  try {
    Job bad(sq, graph);
  } catch (const std::invalid_argument &) {
    refused = true;
  }
  c.check(refused, "a compressed search without the stored vectors was accepted");
  Job job(sq, graph, nullptr, raw);
  Asker<Job, float> ask{c, job, d, true};
  std::vector<std::vector<float>> qs;
  uint32_t k = 1, ef = 1;
  for (size_t i = c.size(1, 4); i > 0; --i) {
    qs.push_back(make_query(c, r, d));
    k = static_cast<uint32_t>(c.flip() ? c.size(1, 10) : c.size(1, n + 5));
    ef = pick_ef(c, n, k);
    ask.question(qs.back(), k, ef);
  }
  ask.refuses_small_ef(qs[0]);
  if (n > 10 && style != 4) {
    c.nontrivial();
  }
  if (c.chance(1, 3)) {
    while (qs.size() < 12) {
      qs.push_back(make_query(c, r, d));
    }
    ask.batch(qs, k, ef, c.size(1, 4));
  }
}

// The other builders.
template <class Build>
void other_builder(Case &c, Build build, bool reaches_all, bool repeats) {
  using Space = alaya::RawSpace<float, float, uint32_t>;
  using Job = alaya::GraphSearchJob<Space>;
  size_t n = c.flip() ? c.size(1, 40) : c.flip() ? c.size(40, 160) : c.size(160, 420), dim = c.size(1, 12);
  int style = static_cast<int>(c.weighted({6, 1, 2}));
  Rng r(c.seed());
  auto d = make_data<float>(c, r, n, dim, MetricType::L2, style);
  uint32_t threads = static_cast<uint32_t>(c.size(1, 4));
  c.note("n ", n, " dim ", dim, " style ", style, " threads ", threads);
  auto space = std::make_shared<Space>(static_cast<uint32_t>(n + c.raw(3)), dim, MetricType::L2);
  space->fit(d.v.data(), static_cast<uint32_t>(n));
  std::shared_ptr<alaya::Graph<float, uint32_t>> graph = build(space, threads);
  if (!repeats) {
    check_edges(c, *graph, n);
  }
  Job job(space, graph);
  Asker<Job, float> ask{c, job, d, false};
  std::vector<std::vector<float>> qs;
  uint32_t k = 1, ef = 1;
  for (size_t i = 0; i < 3; ++i) {
    qs.push_back(make_query(c, r, d));
    k = static_cast<uint32_t>(c.flip() ? c.size(1, 10) : c.size(1, n + 5));
    ef = pick_ef(c, n, k);
    ask.question(qs.back(), k, ef);
    if (reaches_all) {
      auto qc = space->get_query_computer(qs.back().data());
      auto seen = reach(c, *graph, qc, n);
      c.check(seen.size() == n, "only ", seen.size(), " of ", n, " vectors can be reached");
    }
  }
  if (n > 10) {
    c.nontrivial();
  }
  c.label(n <= 20 ? "few" : n <= 120 ? "some" : "many");
  auto dir = c.dir().string();
  graph->save(dir + "/g");
  auto graph2 = std::make_shared<alaya::Graph<float, uint32_t>>();
  graph2->load(dir + "/g");
  Job job2(space, graph2);
  Asker<Job, float> again{c, job2, d, false};
  for (auto &q : qs) {
    auto x = ask.with_dist(q, k, ef), y = again.with_dist(q, k, ef);
    c.check(x.ids == y.ids && x.dist == y.dist, "a reloaded graph answers differently");
  }
}

// Plain random data: the true neighbours are found almost always with a modest width.
template <class T>
void recall(Case &c, MetricType metric) {
  using Space = alaya::RawSpace<T, float, uint32_t>;
  using Job = alaya::GraphSearchJob<Space>;
  size_t n = c.size(200, 1500), dim = c.size(2, 24);
  Rng r(c.seed());
  Data<T> d;
  d.n = n;
  d.dim = dim;
  d.metric = metric;
  d.v.resize(n * dim);
  for (auto &x : d.v) {
    x = static_cast<T>(r.range(0, 200));
  }
  c.note("n ", n, " dim ", dim);
  auto space = std::make_shared<Space>(static_cast<uint32_t>(n), dim, metric);
  space->fit(d.v.data(), static_cast<uint32_t>(n));
  alaya::HNSWBuilder<Space> b(space, 32, 200);
  auto graph = std::shared_ptr<alaya::Graph<T, uint32_t>>(b.build_graph(static_cast<uint32_t>(c.size(1, 4))));
  Job job(space, graph);
  Asker<Job, T> ask{c, job, d, false};
  size_t hit = 0, total = 0, self = 0;
  const uint32_t k = 10;
  for (size_t t = 0; t < 30; ++t) {
    std::vector<T> q(dim);
    for (auto &x : q) {
      x = static_cast<T>(r.range(0, 200));
    }
    auto a = ask.ids_only(q, k, 100);
    std::vector<double> all;
    for (size_t i = 0; i < n; ++i) {
      all.push_back(d.dist(q.data(), d.at(i)));
    }
    std::sort(all.begin(), all.end());
    for (auto x : ask.true_distances(q, a.ids)) {
      hit += x <= all[k - 1];
    }
    total += k;
    std::vector<T> own(d.at(t), d.at(t) + dim);
    auto s = ask.with_dist(own, 1, 40);
    self += s.count == 1 && d.dist(own.data(), d.at(s.ids[0])) == 0;
  }
  c.nontrivial();
  c.check(hit * 100 >= total * 90, "found ", hit, " of ", total, " true neighbours");
  c.check(self >= 28, "only ", self, " of 30 stored vectors find themselves");
}

// Quantised neighbour lists inside the space itself.
void rabitq(Case &c) {
  using Space = alaya::RaBitQSpace<float, float, uint32_t>;
  using Job = alaya::GraphSearchJob<Space>;
  MetricType metric = c.pick({MetricType::L2, MetricType::IP});
  size_t n = c.flip() ? c.size(1, 40) : c.size(40, 400), dim = c.size(64, 150);
  int style = static_cast<int>(c.weighted({6, 3, 3, 2, 1}));
  Rng r(c.seed());
  auto d = make_data<float>(c, r, n, dim, metric, style);
  c.note("n ", n, " dim ", dim, " metric ", static_cast<int>(metric), " style ", style);
  auto space = std::make_shared<Space>(static_cast<uint32_t>(n + c.raw(3)), dim, metric);
  space->fit(d.v.data(), static_cast<uint32_t>(n));
  alaya::QGBuilder<Space> b(space, c.size(1, 2));
  b.build_graph();
  Job job(space, nullptr);
  std::set<uint64_t> r_all{space->get_ep()};
  std::vector<uint64_t> todo{space->get_ep()};
  while (!todo.empty()) {
    auto u = todo.back();
    todo.pop_back();
    c.check(u < n, "the graph references vector ", u, " of ", n);
    const auto *e = space->get_edges(static_cast<uint32_t>(u));
    for (size_t i = 0; i < Space::kDegreeBound; ++i) {
      if (r_all.insert(e[i]).second) {
        todo.push_back(e[i]);
      }
    }
  }
  for (size_t qn = c.size(1, 3); qn > 0; --qn) {
    auto q = make_query(c, r, d);
    uint32_t k = static_cast<uint32_t>(c.flip() ? c.size(1, 10) : c.size(1, n + 5));
    bool wide = c.flip();
    uint32_t ef = wide ? static_cast<uint32_t>(std::max<size_t>(k, n * 34)) : pick_ef(c, n, k);
    c.note("k ", k, " ef ", ef, " reachable ", r_all.size());
    auto a = blank<uint32_t>(k);
    job.rabitq_search_solo(q.data(), k, a.ids.data(), ef);
    settle(c, a, k, false, "rabitq search");
    c.check(std::set<uint32_t>(a.ids.begin(), a.ids.end()).size() == a.count, "an id is returned twice");
    std::vector<double> td, all;
    for (auto id : a.ids) {
      c.check(r_all.count(id) == 1, "id ", id, " cannot be reached");
      td.push_back(d.dist(q.data(), d.at(id)));
    }
    for (auto id : r_all) {
      all.push_back(d.dist(q.data(), d.at(id)));
    }
    std::sort(all.begin(), all.end());
    c.check(std::is_sorted(td.begin(), td.end()), "results out of order");
    if (wide) {
      c.check(a.count == std::min<size_t>(k, r_all.size()), "returned ", a.count, " of ", k, " with ", r_all.size(), " reachable");
      for (size_t i = 0; i < a.count; ++i) {
        c.check(td[i] == all[i], "result ", i, " is at ", td[i], " although a vector is at ", all[i]);
      }
    }
    auto e = blank<uint32_t>(k);
    auto task = job.rabitq_search(q.data(), k, e.ids.data(), ef);
    drive(task);
    settle(c, e, k, false, "rabitq coroutine");
    c.check(e.ids == a.ids, "the coroutine search disagrees with the blocking one");
    alaya::DynamicBitset mask(n);
    std::set<uint64_t> open = r_all;
    uint64_t part = c.range(0, 10);
    for (size_t i = 0; i < n; ++i) {
      if (c.chance(part, 10)) {
        mask.set(i);
        open.erase(i);
      }
    }
    auto m = blank<uint32_t>(k);
    job.rabitq_search_solo(q.data(), k, m.ids.data(), alaya::SearchInfo{.topk_ = k, .ef_ = ef}, &mask);
    settle(c, m, k, false, "masked rabitq search");
    c.check(std::set<uint32_t>(m.ids.begin(), m.ids.end()).size() == m.count, "masked search repeats an id");
    std::vector<double> md;
    for (auto id : m.ids) {
      c.check(open.count(id) == 1, "masked search returned blocked id ", id);
      md.push_back(d.dist(q.data(), d.at(id)));
    }
    c.check(std::is_sorted(md.begin(), md.end()), "masked results out of order");
    if (wide) {
      std::vector<double> want;
      for (auto id : open) {
        want.push_back(d.dist(q.data(), d.at(id)));
      }
      std::sort(want.begin(), want.end());
      want.resize(std::min<size_t>(want.size(), k));
      c.check(md == want, "masked search with full width missed an open neighbour: ", md.size(), " of ", want.size());
    }
    bool refused = false;
    try {
      job.rabitq_search_solo(q.data(), 3, a.ids.data(), 2);
    } catch (const std::invalid_argument &) {
      refused = true;
    }
    c.check(refused, "ef below k accepted");
  }
  c.label(n <= 32 ? "few" : "many");
  if (n > 10) {
    c.nontrivial();
  }
}
}  // namespace

PBT(hnsw_float, "more than ten vectors", 1000, 12000, pbt::Opts{.hang_s = 60}) { hnsw<float, uint32_t>(c); }
PBT(hnsw_bytes, "more than ten vectors", 300, 4000, pbt::Opts{.hang_s = 60}) { hnsw<uint8_t, uint32_t>(c); }
PBT(hnsw_wide_ids, "more than ten vectors", 300, 4000, pbt::Opts{.hang_s = 60}) { hnsw<float, uint64_t>(c); }

PBT(rerank_sq8, "more than ten vectors, not all equal", 300, 4000) { reranked<alaya::SQ8Space>(c); }
PBT(rerank_sq4, "more than ten vectors, not all equal", 300, 4000) { reranked<alaya::SQ4Space>(c); }
PBT(nsg, "more than ten vectors", 40, 500) {
  other_builder(c, [](auto &space, uint32_t t) { return alaya::NSGBuilder<alaya::RawSpace<>>(space, 24, 100).build_graph(t); }, true, false);
}
PBT(nndescent, "more than ten vectors", 40, 500) {
  other_builder(c, [](auto &space, uint32_t t) { return alaya::NndescentImpl<alaya::RawSpace<>>(space, 20).build_graph(t); }, false, false);
}
PBT(fusion, "more than ten vectors", 30, 400) {
  other_builder(c, [](auto &space, uint32_t t) {
    return alaya::FusionGraphBuilder<alaya::RawSpace<>, alaya::HNSWBuilder<alaya::RawSpace<>>, alaya::NSGBuilder<alaya::RawSpace<>>>(space, 16, 100).build_graph(t);
  }, false, true);
}
PBT(recall_l2, "always: at least 200 random vectors", 10, 120) { recall<float>(c, MetricType::L2); }
PBT(recall_bytes, "always: at least 200 random vectors", 5, 60) { recall<uint8_t>(c, MetricType::L2); }
PBT(rabitq_graph, "more than ten vectors", 40, 500) { rabitq(c); }
