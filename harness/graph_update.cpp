// Histories of inserts, removals, searches and reloads on a graph index, against a plain list of vectors.
#include "executor/jobs/graph_update_job.hpp"
#include "graphs.hpp"
#include "main.hpp"
using namespace pbt;
using namespace graphs;

namespace {
// The kinds of index a collection can be: how the two spaces are made and named.
template <class S, class B>
struct Kind {
  using Space = S;
  using Build = B;
  static constexpr bool kTwo = !std::is_same_v<S, B>;
  static constexpr bool kScalar = S::has_scalar_data;
};

template <class S>
std::shared_ptr<S> make_space(size_t cap, size_t dim, MetricType m, const std::string &db) {
  using Id = typename S::IDTypeAlias;
  if constexpr (S::has_scalar_data) {
    auto cfg = alaya::RocksDBConfig::default_config();
    cfg.db_path_ = db;
    return std::make_shared<S>(static_cast<Id>(cap), dim, m, cfg);
  } else {
    return std::make_shared<S>(static_cast<Id>(cap), dim, m);
  }
}

template <class K>
struct World {
  using Space = typename K::Space;
  using Build = typename K::Build;
  using Id = typename Space::IDTypeAlias;
  using T = typename Space::DataTypeAlias;
  using Graph = alaya::Graph<T, Id>;
  using Search = alaya::GraphSearchJob<Space, Build>;
  using Update = alaya::GraphUpdateJob<Space, Build>;

  Case &c;
  Rng r;
  Data<T> d;  // d.n counts slots, live or not
  std::vector<bool> live;
  std::vector<std::string> name;  // item id of each slot
  size_t cap = 0;
  int gen = 0;
  std::shared_ptr<Space> space;
  std::shared_ptr<Build> build;
  std::shared_ptr<Graph> graph;
  std::shared_ptr<Search> search;
  std::shared_ptr<Update> update;

  World(Case &cc, uint64_t seed) : c(cc), r(seed) {}

  size_t live_count() const { return static_cast<size_t>(std::count(live.begin(), live.end(), true)); }

  void jobs() {
    search = std::make_shared<Search>(space, graph, nullptr, build);
    update = std::make_shared<Update>(search);
  }

  void start(size_t n, size_t capacity, size_t dim, MetricType metric, int style, uint32_t R, uint32_t L, uint32_t threads) {
    cap = capacity;
    d = make_data<T>(c, r, n, dim, metric, style);
    live.assign(n, true);
    std::vector<alaya::ScalarData> rows;
    for (size_t i = 0; i < n; ++i) {
      name.push_back("i" + std::to_string(i));
      rows.push_back({name[i], "", {}});
    }
    auto db = c.dir().string() + "/db";
    build = make_space<Build>(cap, dim, metric, db);
    if constexpr (K::kScalar && !K::kTwo) {
      build->fit(d.v.data(), static_cast<Id>(n), rows.data());
    } else {
      build->fit(d.v.data(), static_cast<Id>(n));
    }
    if constexpr (K::kTwo) {
      space = make_space<Space>(cap, dim, metric, db);
      if constexpr (K::kScalar) {
        space->fit(d.v.data(), static_cast<Id>(n), rows.data());
      } else {
        space->fit(d.v.data(), static_cast<Id>(n));
      }
    } else {
      space = build;
    }
    alaya::HNSWBuilder<Build> b(build, R, L);
    graph = std::shared_ptr<Graph>(b.build_graph(threads));
    jobs();
  }

  std::vector<T> point() {
    std::vector<T> p(d.dim);
    if (d.n > 0 && c.chance(1, 4)) {
      size_t i = r.below(d.n);
      std::copy(d.at(i), d.at(i) + d.dim, p.begin());
    } else {
      fill_point(r, c.chance(1, 6) ? 0 : d.style, d.dim, p.data());
    }
    return p;
  }

  void append(const std::vector<T> &p, const std::string &item) {
    d.v.resize(d.n * d.dim);
    d.v.insert(d.v.end(), p.begin(), p.end());
    ++d.n;
    live.push_back(true);
    name.push_back(item);
  }

  Id insert(const std::vector<T> &p, uint32_t ef, const std::string &item) {
    auto q = p;
    if constexpr (K::kScalar) {
      alaya::ScalarData sd{item, "doc", {}};
      return update->insert_and_update(q.data(), ef, &sd);
    } else {
      return update->insert_and_update(q.data(), ef);
    }
  }

  // A normal insert: gets the next slot while there is room, otherwise is refused without effect.
  void do_insert() {
    auto p = point();
    auto item = "n" + std::to_string(gen++);
    auto ef = static_cast<uint32_t>(graph->max_nbrs_ + c.raw(40));
    auto id = insert(p, ef, item);
    c.note("insert ef ", ef, " -> ", static_cast<int64_t>(id));
    if (d.n < cap) {
      c.check(id == static_cast<Id>(d.n), "insert returned id ", id, ", the next slot is ", d.n);
      append(p, item);
    } else {
      c.label("full");
      c.check(id == static_cast<Id>(-1), "a full index accepted an insert as id ", id);
    }
  }

  void refused_inserts() {
    auto p = point();
    bool thrown = false;
    try {
      insert(p, graph->max_nbrs_ - 1, "refused");
    } catch (const std::invalid_argument &) {
      thrown = true;
    }
    c.check(thrown, "an insert narrower than the neighbour list was accepted");
    if constexpr (K::kScalar) {
      std::vector<size_t> alive;
      for (size_t i = 0; i < d.n; ++i) {
        if (live[i]) {
          alive.push_back(i);
        }
      }
      if (!alive.empty()) {
        c.label("duplicate item");
        auto &item = name[alive[r.below(alive.size())]];
        thrown = false;
        try {
          insert(p, graph->max_nbrs_, item);
        } catch (const std::runtime_error &) {
          thrown = true;
        }
        c.check(thrown, "item ", item, " was inserted twice");
      }
      thrown = false;
      try {
        update->remove(std::string("nobody"));
      } catch (const std::runtime_error &) {
        thrown = true;
      }
      c.check(thrown, "removing an unknown item succeeded");
    }
  }

  void do_remove(size_t i, bool by_item) {
    c.note("remove ", i, live[i] ? "" : " (again)");
    if constexpr (K::kScalar) {
      if (by_item && live[i]) {
        update->remove(name[i]);
        live[i] = false;
        return;
      }
    }
    (void)by_item;
    update->remove(static_cast<Id>(i));
    live[i] = false;
  }

  void reload() {
    c.note("reload");
    c.label("reload");
    auto dir = c.dir().string() + "/snap" + std::to_string(gen++);
    graph->save(dir + "g");
    build->save(dir + "b");
    if constexpr (K::kTwo) {
      space->save(dir + "s");
    }
    update.reset();
    search.reset();
    if constexpr (K::kScalar) {
      space->close_db();
    }
    graph = std::make_shared<Graph>();
    graph->load(dir + "g");
    build = std::make_shared<Build>();
    build->load(dir + "b");
    build->set_metric_function();
    if constexpr (K::kTwo) {
      space = std::make_shared<Space>();
      space->load(dir + "s");
      space->set_metric_function();
    } else {
      space = build;
    }
    jobs();
  }

  void structure() {
    c.check(space->get_data_num() == d.n, "the space counts ", space->get_data_num(), " slots, the history made ", d.n);
    c.check(build->get_data_num() == d.n, "the stored vectors count ", build->get_data_num(), " slots, the history made ", d.n);
    c.check(build->get_avl_data_num() == live_count(), "the space counts ", build->get_avl_data_num(), " live vectors, the history left ", live_count());
    check_edges(c, *graph, d.n);
    for (size_t i = 0; i < d.n; ++i) {
      if (live[i]) {
        c.check(std::equal(d.at(i), d.at(i) + d.dim, build->get_data_by_id(static_cast<Id>(i))), "slot ", i, " no longer holds its vector");
        if constexpr (K::kScalar) {
          auto got = space->get_scalar_data(name[i]);
          c.check(got.first == i, "item ", name[i], " maps to slot ", got.first, " instead of ", i);
        }
      }
    }
  }

  using A = Answer<Id>;
  A solo(std::vector<T> q, uint32_t k, uint32_t ef) {
    auto a = blank<Id>(k);
    search->search_solo(q.data(), a.ids.data(), a.dist.data(), k, ef);
    settle(c, a, k, true, "search_solo with distances");
    return a;
  }

  void valid(const std::vector<T> &q, const std::vector<Id> &ids, uint32_t k, const std::set<uint64_t> &seen, const char *what) {
    c.check(ids.size() <= k, what, " returned ", ids.size(), " ids for k ", k);
    c.check(std::set<Id>(ids.begin(), ids.end()).size() == ids.size(), what, " repeats an id");
    double last = -std::numeric_limits<double>::infinity();
    for (auto id : ids) {
      c.check(id < d.n, what, " returned id ", id, " although only ", d.n, " slots exist");
      c.check(live[id], what, " returned removed id ", id);
      c.check(seen.count(id) == 1, what, " returned unreachable id ", id);
      double x = d.dist(q.data(), d.at(id));
      c.check(x >= last, what, " is out of order");
      last = x;
    }
  }

  // `complete`: every live vector must be reachable
  void question(const std::vector<T> &q, bool complete) {
    auto k = static_cast<uint32_t>(c.flip() ? c.size(1, 10) : c.size(1, d.n + 3));
    auto ef = static_cast<uint32_t>(c.flip() ? std::max<size_t>(k, d.n) : k + c.raw(8));
    auto qc = space->get_query_computer(q.data());
    auto seen = reach(c, *graph, qc, d.n);
    std::vector<double> want;
    for (auto id : seen) {
      if (live[id]) {
        want.push_back(d.dist(q.data(), d.at(id)));
      }
    }
    std::sort(want.begin(), want.end());
    c.note("question k ", k, " ef ", ef, " live ", live_count(), " reachable ", want.size());
    if (complete) {
      c.check(want.size() == live_count(), "only ", want.size(), " of ", live_count(), " live vectors can be reached");
    }
    auto a = solo(q, k, ef);
    valid(q, a.ids, k, seen, "search");
    for (size_t i = 0; i < a.count; ++i) {
      c.check(static_cast<double>(a.dist[i]) == d.dist(q.data(), d.at(a.ids[i])), "id ", a.ids[i], " returned with distance ", a.dist[i], ", true distance ",
              d.dist(q.data(), d.at(a.ids[i])));
    }
    auto exact = [&](const std::vector<Id> &ids, const char *what) {
      if (ef < d.n) {
        return;
      }
      c.check(ids.size() == std::min<size_t>(k, want.size()), what, " returned ", ids.size(), " of ", k, " with ", want.size(), " live vectors reachable");
      for (size_t i = 0; i < ids.size(); ++i) {
        c.check(d.dist(q.data(), d.at(ids[i])) == want[i], what, " missed a live vector at distance ", want[i]);
      }
    };
    exact(a.ids, "search");
    auto again = [&](auto call, bool dist, const char *what) {
      auto b = blank<Id>(k);
      auto qq = q;
      call(qq.data(), b);
      settle(c, b, k, dist, what);
      c.check(b.ids == a.ids, what, " disagrees with the search with distances");
      c.check(!dist || b.dist == a.dist, what, " gives other distances");
    };
    again([&](T *p, A &b) { search->search_solo(p, b.ids.data(), k, ef); }, false, "search_solo");
    again([&](T *p, A &b) { auto t = search->search(p, b.ids.data(), k, ef); drive(t); }, false, "coroutine search");
    again([&](T *p, A &b) { auto t = search->search(p, b.ids.data(), b.dist.data(), k, ef); drive(t); }, true, "coroutine search with distances");
    alaya::DynamicBitset mask(d.n);
    auto m = blank<Id>(k);
    auto qq = q;
    search->search_solo(qq.data(), m.ids.data(), alaya::SearchInfo{.topk_ = k, .ef_ = ef}, &mask);
    settle(c, m, k, false, "masked search");
    valid(q, m.ids, k, seen, "masked search");
    exact(m.ids, "masked search");
  }
};

MetricType pick_metric(Case &c) { return c.weighted({3, 1}) == 0 ? MetricType::L2 : MetricType::IP; }

template <class K>
void history(Case &c) {
  bool roomy = c.flip();  // as many links as slots: nothing may ever be lost
  auto R = static_cast<uint32_t>(roomy ? c.pick({16, 32, 48}) : c.pick({4, 8, 16}));
  size_t n = c.size(1, roomy ? 10 : 40);
  World<K> w(c, c.seed());
  size_t dim = c.size(1, 8);
  int style = static_cast<int>(c.weighted({6, 3, 3, 2, 1}));
  size_t cap = n + c.size(0, 40);
  auto metric = pick_metric(c);
  auto threads = static_cast<uint32_t>(c.size(1, 2));
  if (roomy) {
    cap = std::min<size_t>(cap, R + 1);  // one slot may link to every other
  }
  c.note("n ", n, " cap ", cap, " dim ", dim, " metric ", static_cast<int>(metric), " style ", style, " R ", R);
  w.start(n, cap, dim, metric, style, R, static_cast<uint32_t>(c.pick({8, 40})), threads);
  bool complete = roomy && w.cap <= w.graph->max_nbrs_ + 1;
  bool clear_out = c.chance(1, 5);
  size_t inserted = 0, removed = 0;
  size_t steps = c.size(1, K::kScalar ? 25 : 50);
  for (size_t s = 0; s < steps; ++s) {
    switch (c.weighted({8, 6, 1, 6, 1, 1})) {
      case 0: w.do_insert(); ++inserted; break;
      case 1: {
        std::vector<size_t> alive;
        for (size_t i = 0; i < w.d.n; ++i) {
          if (w.live[i]) {
            alive.push_back(i);
          }
        }
        if (!alive.empty()) {
          w.do_remove(alive[c.raw(alive.size() - 1)], c.flip());
          ++removed;
        }
        break;
      }
      case 2: {
        size_t i = c.raw(w.d.n - 1);
        w.do_remove(i, false);
        break;
      }
      case 3: w.question(w.point(), complete); break;
      case 4: w.refused_inserts(); break;
      default: w.reload(); break;
    }
    if (clear_out && s == steps / 2) {
      c.label("cleared out");
      for (size_t i = 0; i < w.d.n; ++i) {
        if (w.live[i]) {
          w.do_remove(i, c.flip());
        }
      }
    }
    w.structure();
  }
  w.question(w.point(), complete);
  for (size_t i = 0; i < w.d.n; ++i) {  // each live vector finds itself
    if (!w.live[i] || !complete || w.d.metric != MetricType::L2) {
      continue;
    }
    std::vector<typename World<K>::T> q(w.d.at(i), w.d.at(i) + w.d.dim);
    auto a = w.solo(q, 1, static_cast<uint32_t>(w.d.n));
    c.check(a.count == 1 && a.dist[0] == 0, "live vector ", i, " does not find itself");
  }
  c.label(complete ? "roomy" : "crowded");
  if (inserted >= 2 && removed >= 1) {
    c.nontrivial();
  }
}

using Id32 = uint32_t;
using Bytes32 = alaya::SequentialStorage<uint8_t, Id32>;
using Raw = alaya::RawSpace<float, float, Id32>;
using RawBytes = alaya::RawSpace<int8_t, float, Id32>;
using RawWide = alaya::RawSpace<float, float, uint64_t>;
using RawItems = alaya::RawSpace<float, float, Id32, alaya::SequentialStorage<float, Id32>, alaya::ScalarData>;
template <class Sc>
using Sq8 = alaya::SQ8Space<float, float, Id32, Bytes32, Sc>;
template <class Sc>
using Sq4 = alaya::SQ4Space<float, float, Id32, Bytes32, Sc>;

// Random data: growth and removal keep nearly everything findable with a modest width.
template <class K>
void growth(Case &c) {
  World<K> w(c, c.seed());
  size_t n = c.size(1, 200), more = c.size(100, 500), dim = c.size(2, 16);
  c.note("n ", n, " more ", more, " dim ", dim);
  w.start(n, n + more, dim, MetricType::L2, 0, 32, 200, 2);
  for (size_t i = 0; i < more; ++i) {
    std::vector<float> p(dim);
    fill_point(w.r, 0, dim, p.data());
    auto id = w.insert(p, 200, "");
    c.check(id == w.d.n, "insert returned id ", id);
    w.append(p, "");
    if (c.chance(1, 4)) {
      size_t x = w.r.below(w.d.n);
      if (w.live[x]) {
        w.update->remove(static_cast<Id32>(x));
        w.live[x] = false;
      }
    }
  }
  w.structure();
  size_t self = 0, hit = 0, total = 0, asked = 0;
  for (size_t i = 0; i < w.d.n; ++i) {
    if (w.live[i]) {
      std::vector<float> q(w.d.at(i), w.d.at(i) + dim);
      auto a = w.solo(q, 1, 100);
      self += a.count == 1 && w.d.dist(q.data(), w.d.at(a.ids[0])) == 0;
      ++asked;
    }
  }
  for (size_t t = 0; t < 20; ++t) {
    std::vector<float> q(dim);
    fill_point(w.r, 0, dim, q.data());
    std::vector<double> all;
    for (size_t i = 0; i < w.d.n; ++i) {
      if (w.live[i]) {
        all.push_back(w.d.dist(q.data(), w.d.at(i)));
      }
    }
    std::sort(all.begin(), all.end());
    size_t k = std::min<size_t>(10, all.size());
    auto a = w.solo(q, 10, 100);
    for (auto id : a.ids) {
      c.check(w.live[id], "removed id ", id, " returned");
      hit += k > 0 && w.d.dist(q.data(), w.d.at(id)) <= all[k - 1];
    }
    total += k;
  }
  c.nontrivial();
  c.note("self ", self, "/", asked, " recall ", hit, "/", total);
  c.check(self * 100 >= asked * 95, "only ", self, " of ", asked, " live vectors find themselves");
  c.check(hit * 100 >= total * 85, "found ", hit, " of ", total, " true neighbours");
}
}  // namespace

PBT(history_raw, "two inserts and a removal", 600, 10000) { history<Kind<Raw, Raw>>(c); }
PBT(history_bytes, "two inserts and a removal", 200, 3000) { history<Kind<RawBytes, RawBytes>>(c); }
PBT(history_wide_ids, "two inserts and a removal", 200, 3000) { history<Kind<RawWide, RawWide>>(c); }
PBT(history_sq8, "two inserts and a removal", 200, 3000) { history<Kind<Sq8<alaya::EmptyScalarData>, Raw>>(c); }
PBT(history_sq4, "two inserts and a removal", 200, 3000) { history<Kind<Sq4<alaya::EmptyScalarData>, Raw>>(c); }
PBT(history_items, "two inserts and a removal", 60, 600) { history<Kind<RawItems, RawItems>>(c); }
PBT(history_items_sq8, "two inserts and a removal", 60, 600) { history<Kind<Sq8<alaya::ScalarData>, Raw>>(c); }
// Fixed history (known finding): update() keeps the nearest links only, so a far vector loses all its incoming ones as near vectors arrive.
PBT(crowded_links, "always: the one history", 1, 1) {
  World<Kind<Raw, Raw>> w(c, 1);
  w.start(1, 20, 2, MetricType::L2, 0, 4, 8, 1);
  for (size_t i = 0; i < 13; ++i) {
    std::vector<float> p{i == 1 ? 1000.F : w.d.v[0] + static_cast<float>(i) / 16.F, w.d.v[1]};
    c.check(w.insert(p, 40, "") == w.d.n, "wrong slot");
    w.append(p, "");
  }
  c.nontrivial();
  for (size_t i = 0; i < w.d.n; ++i) {
    std::vector<float> q(w.d.at(i), w.d.at(i) + 2);
    auto a = w.solo(q, 1, 40);
    c.check(a.count == 1 && a.dist[0] == 0, "crowded links: live vector ", i, " is not found at any search width");
  }
}
PBT(growth_raw, "always: at least 100 inserts", 6, 60) { growth<Kind<Raw, Raw>>(c); }
PBT(growth_sq8, "always: at least 100 inserts", 3, 30) { growth<Kind<Sq8<alaya::EmptyScalarData>, Raw>>(c); }
