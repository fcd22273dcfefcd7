// Filtered vector search: every strategy, the partitioned view and brute force, against a scan of the live rows.
#include "executor/jobs/graph_hybrid_search_job.hpp"
#include "executor/jobs/graph_update_job.hpp"
#include "graphs.hpp"
#include "index/graph/qg/qg_builder.hpp"
#include "main.hpp"
#include "materialized_view.hpp"
#include "meta.hpp"
#include "space/rabitq_space.hpp"
using namespace pbt;
using namespace graphs;
using alaya::FilterExecHint;
using alaya::MetadataFilter;
using alaya::SearchInfo;

namespace {
const std::vector<std::string> kFields = {"dept", "age", "beta", "cat"};

template <class S, class B>
struct World {
  using Space = S;
  using Build = B;
  using Id = typename S::IDTypeAlias;
  using T = typename S::DataTypeAlias;
  using Graph = alaya::Graph<T, Id>;
  using Job = alaya::GraphHybridSearchJob<S, B>;
  using View = alaya::MaterializedViewManager<S, B>;
  static constexpr bool kTwo = !std::is_same_v<S, B>;
  static constexpr bool kRabitq = alaya::is_rabitq_space_v<S>;

  Case &c;
  Rng r;
  Data<T> d;
  std::vector<alaya::ScalarData> row;
  std::vector<bool> live;
  std::shared_ptr<S> space;
  std::shared_ptr<B> build;
  std::shared_ptr<Graph> graph;
  std::shared_ptr<Job> job;
  alaya::IndexParams params;
  View view;
  bool has_view = false;
  size_t hits = 0, sought = 0;
  size_t selective = 0;

  World(Case &cc, uint64_t seed) : c(cc), r(seed) {}

  alaya::ScalarData fresh(const std::string &id) { return {id, "doc " + id, meta::gen_metadata(c, kFields, false)}; }

  void start() {
    size_t n;
    switch (c.weighted({4, 8, 3})) {
      case 0: n = c.size(1, 20); break;
      case 1: n = c.size(20, 150); break;
      default: n = c.size(150, kRabitq ? 300 : 400); break;
    }
    if (c.chance(1, 60)) {
      n = c.size(1020, 1300);  // more than one batch of rows
      c.label("batches");
    }
    size_t dim = kRabitq ? c.size(64, 100) : c.size(1, 8);
    auto metric = c.weighted({3, 1}) == 0 ? MetricType::L2 : MetricType::IP;
    int style = static_cast<int>(c.weighted({6, 2, 3, 2, 1}));
    d = make_data<T>(c, r, n, dim, metric, style);
    live.assign(n, true);
    // Field values drawn with a skew, so that filters range from rare to common.
    for (size_t i = 0; i < n; ++i) {
      row.push_back(n <= 150 ? fresh("i" + std::to_string(i)) : alaya::ScalarData{"i" + std::to_string(i), "", cheap()});
    }
    auto cfg = alaya::RocksDBConfig::default_config();
    cfg.db_path_ = c.dir().string() + "/db";
    auto fields = kFields;
    for (size_t i = c.raw(fields.size()); i > 0; --i) {
      size_t at = c.raw(fields.size() - 1);
      cfg.indexed_fields_.push_back(fields[at]);
      fields.erase(fields.begin() + static_cast<std::ptrdiff_t>(at));
    }
    size_t extra = kRabitq ? 0 : c.size(0, 10);
    auto cap = static_cast<Id>(n + extra);
    auto R = static_cast<uint32_t>(c.pick({4, 16, 32}));
    c.note("n ", n, " dim ", dim, " metric ", static_cast<int>(metric), " style ", style, " R ", R, " indexed ", cfg.indexed_fields_.size(),
           cfg.indexed_fields_.empty() ? "" : " first " + cfg.indexed_fields_[0]);
    params.metric_ = metric;
    params.max_nbrs_ = R;
    params.indexed_fields_ = cfg.indexed_fields_;
    space = std::make_shared<S>(cap, dim, metric, cfg);
    space->fit(d.v.data(), static_cast<Id>(n), row.data());
    if constexpr (kRabitq) {
      alaya::QGBuilder<S> b(space, 2);
      b.build_graph();
    } else {
      if constexpr (kTwo) {
        build = std::make_shared<B>(cap, dim, metric);
        build->fit(d.v.data(), static_cast<Id>(n));
      } else {
        build = space;
      }
      alaya::HNSWBuilder<B> b(build, R, 100);
      graph = std::shared_ptr<Graph>(b.build_graph(static_cast<uint32_t>(c.size(1, 2))));
      change(extra);
    }
    job = std::make_shared<Job>(space, graph, build);
    if (!cfg.indexed_fields_.empty() && c.chance(2, 3)) {
      view.rebuild(params, static_cast<uint32_t>(dim), space, build, 100, static_cast<uint32_t>(c.size(1, 2)));
      has_view = view.get_partition_count() > 0;
      if (has_view) {
        c.label("view");
      }
    }
  }

  alaya::MetadataMap cheap() {
    alaya::MetadataMap m;
    static const char *const depts[] = {"a", "b", "ab", "tech", "news", "a_b"};
    if (!r.flip() || r.flip()) {
      m["dept"] = std::string(depts[r.below(r.flip() ? 6 : 2)]);
    }
    m["age"] = static_cast<int64_t>(r.range(-3, 6));
    if (r.flip()) {
      m["beta"] = static_cast<double>(r.range(-6, 8)) / 2;
    }
    m["cat"] = r.flip();
    return m;
  }

  void change(size_t room) {
    if constexpr (!kRabitq) {
      if (c.chance(1, 3)) {
        return;
      }
      auto search = std::make_shared<alaya::GraphSearchJob<S, B>>(space, graph, nullptr, build);
      alaya::GraphUpdateJob<S, B> update(search);
      bool most = c.chance(1, 8);
      size_t steps = most ? d.n * 2 : c.size(1, 15);
      for (size_t s = 0; s < steps; ++s) {
        if (room > 0 && c.chance(1, 3)) {
          std::vector<T> p(d.dim);
          fill_point(r, d.style, d.dim, p.data());
          auto sd = fresh("n" + std::to_string(s));
          auto id = update.insert_and_update(p.data(), static_cast<uint32_t>(graph->max_nbrs_ + 20), &sd);
          c.check(id == d.n, "insert returned id ", id);
          d.v.resize(d.n * d.dim);
          d.v.insert(d.v.end(), p.begin(), p.end());
          ++d.n;
          live.push_back(true);
          row.push_back(sd);
          --room;
        } else {
          size_t i = r.below(d.n);
          if (live[i]) {
            update.remove(row[i].item_id);
            live[i] = false;
            c.label("removals");
          }
        }
      }
    }
  }

  std::set<uint64_t> reached(const T *q) {
    if constexpr (kRabitq) {
      std::set<uint64_t> all;
      for (size_t i = 0; i < d.n; ++i) {
        all.insert(i);
      }
      return all;
    } else {
      auto qc = space->get_query_computer(q);
      return reach(c, *graph, qc, d.n);
    }
  }

  MetadataFilter filter() {
    MetadataFilter f;
    switch (c.weighted({6, 3, 2, 1})) {
      case 0: f = meta::gen_filter(c, kFields, false); break;
      case 1: {  // what a partitioned view can serve
        auto field = params.indexed_fields_.empty() ? c.pick(kFields) : params.indexed_fields_[0];
        alaya::FilterCondition k;
        k.field = field;
        k.op = c.flip() ? alaya::FilterOp::EQ : alaya::FilterOp::IN_SET;
        k.value = known(field);
        for (size_t i = c.raw(4); k.op == alaya::FilterOp::IN_SET && i > 0; --i) {
          k.values.push_back(known(field));
        }
        f.conditions.push_back(k);
        if (c.flip()) {
          auto more = meta::gen_condition(c, kFields, false);
          if (c.flip()) {
            f.conditions.push_back(more);
          } else {
            auto sub = std::make_shared<MetadataFilter>();
            sub->conditions.push_back(more);
            f.sub_filters.push_back(sub);
          }
        }
        break;
      }
      case 2: {  // nearly everything
        alaya::FilterCondition k;
        k.field = c.flip() ? "age" : "cat";
        k.op = alaya::FilterOp::NOT_IN_SET;
        f.conditions.push_back(k);
        break;
      }
      default: break;
    }
    return f;
  }

  alaya::MetadataValue known(const std::string &field) {
    auto &m = row[r.below(row.size())].metadata;
    auto it = m.find(field);
    return it == m.end() ? meta::gen_value_for(c, field, false) : it->second;
  }

  struct Out {
    std::vector<Id> ids;
    std::vector<std::string> items;
  };
  Out empty(size_t k) {
    Out o;
    o.ids.assign(k + 2, static_cast<Id>(0x5a5a5a5a));
    o.items.assign(k + 2, "untouched");
    return o;
  }

  enum Level { kValid, kCount, kExact };

  std::vector<double> judge(Out &o, const std::vector<T> &q, uint32_t k, const std::vector<size_t> &match, Level level, const std::string &what) {
    c.check(o.ids[k] == static_cast<Id>(0x5a5a5a5a) && o.items[k] == "untouched", what, " wrote past its buffers");
    size_t count = 0;
    while (count < k && o.ids[count] != static_cast<Id>(-1)) {
      ++count;
    }
    std::vector<double> got;
    std::set<uint64_t> seen;
    for (size_t i = 0; i < k; ++i) {
      if (i >= count) {
        c.check(o.ids[i] == static_cast<Id>(-1), what, " left a gap before id ", o.ids[i]);
        c.check(o.items[i].empty(), what, " names item ", meta::show(o.items[i]), " for an absent result");
        continue;
      }
      auto id = static_cast<uint64_t>(o.ids[i]);
      c.check(id < d.n, what, " returned id ", id, " of ", d.n);
      c.check(live[id], what, " returned removed id ", id);
      c.check(std::binary_search(match.begin(), match.end(), id), what, " returned id ", id, " which does not match: ", meta::show(row[id]));
      c.check(seen.insert(id).second, what, " repeats id ", id);
      c.check(o.items[i] == row[id].item_id, what, " names ", meta::show(o.items[i]), " for id ", id, ", item ", row[id].item_id);
      got.push_back(d.dist(q.data(), d.at(id)));
    }
    c.check(std::is_sorted(got.begin(), got.end()), what, " is out of order");
    size_t want = std::min<size_t>(k, match.size());
    c.check(level == kValid || count == want, what, " returned ", count, " of ", k, " although ", match.size(), " rows match");
    std::vector<double> best;
    for (auto i : match) {
      best.push_back(d.dist(q.data(), d.at(i)));
    }
    std::sort(best.begin(), best.end());
    best.resize(want);
    if (level == kExact) {
      for (size_t i = 0; i < want; ++i) {
        c.check(got[i] == best[i], what, " result ", i, " is at ", got[i], " although a matching row is at ", best[i]);
      }
    }
    return best;
  }

  void ask() {
    std::vector<T> q(d.dim);
    if (c.chance(1, 4)) {
      size_t i = r.below(d.n);
      std::copy(d.at(i), d.at(i) + d.dim, q.begin());
    } else {
      fill_point(r, c.chance(1, 6) ? 0 : d.style, d.dim, q.data());
    }
    auto f = filter();
    std::vector<size_t> match;
    size_t alive = 0;
    for (size_t i = 0; i < d.n; ++i) {
      alive += live[i];
      if (live[i] && meta::holds(f, row[i].metadata)) {
        match.push_back(i);
      }
    }
    auto k = static_cast<uint32_t>(c.weighted({3, 1}) == 0 ? c.size(1, 6) : c.size(1, d.n + 3));
    bool wide = c.flip();
    auto ef = static_cast<uint32_t>(wide ? std::max<size_t>(k, d.n * (kRabitq ? 34 : 1)) : k + c.raw(20));
    wide = ef >= d.n;
    auto hint = static_cast<FilterExecHint>(c.weighted({4, 1, 2}));
    SearchInfo info{.topk_ = k, .ef_ = ef, .filter_exec_hint_ = hint};
    auto seen = reached(q.data());
    bool whole = true;
    for (size_t i = 0; i < d.n; ++i) {
      whole = whole && (!live[i] || seen.count(i) != 0);
    }
    c.note("filter ", meta::show(f), " matches ", match.size(), " of ", alive, " k ", k, " ef ", ef, " hint ", static_cast<int>(hint), whole ? "" : " (not all reachable)");
    bool some = !match.empty() && match.size() < alive;
    selective += some;
    Level level = kValid;
    bool iterative = hint == FilterExecHint::kIterativeFilter;
    bool all = match.size() == d.n || f.is_empty();
    if (kRabitq) {
      level = iterative || all ? kValid : kCount;
    } else if (wide && whole) {
      level = iterative && !f.is_empty() ? kCount : kExact;
    } else if (!iterative && !all) {
      level = kCount;
    }
    auto solo = [&](const SearchInfo &si, Out &o, const MetadataFilter &flt) {
      auto qq = q;
      if constexpr (kRabitq) {
        job->rabitq_hybrid_search_solo(qq.data(), si, o.ids.data(), flt, o.items.data());
      } else {
        job->hybrid_search_solo(qq.data(), o.ids.data(), si, flt, o.items.data());
      }
    };
    auto a = empty(k);
    solo(info, a, f);
    auto best = judge(a, q, k, match, level, "filtered search");
    if (!iterative && wide && whole && d.style == 0) {
      tally(a, q, k, best);
    }
    {
      auto b = empty(k);
      auto qq = q;
      if constexpr (kRabitq) {
        auto t = job->rabitq_hybrid_search(qq.data(), info, b.ids.data(), f, b.items.data());
        drive(t);
      } else {
        auto t = job->hybrid_search(qq.data(), b.ids.data(), info, f, b.items.data());
        drive(t);
      }
      c.check(b.ids == a.ids && b.items == a.items, "the coroutine filtered search disagrees with the blocking one");
    }
    if (hint == FilterExecHint::kAuto && c.flip()) {
      auto b = empty(k);
      auto qq = q;
      if constexpr (kRabitq) {
        job->rabitq_hybrid_search_solo(qq.data(), k, b.ids.data(), ef, f, b.items.data());
      } else {
        job->hybrid_search_solo(qq.data(), b.ids.data(), k, ef, f, b.items.data());
      }
      c.check(b.ids == a.ids && b.items == a.items, "the filtered search without a hint disagrees with the automatic one");
    }
    auto x = empty(k);
    job->hybrid_search_brute_force_solo(q.data(), x.ids.data(), k, f, x.items.data());
    judge(x, q, k, match, kExact, "brute force search");
    {
      auto b = empty(k);
      auto t = job->hybrid_search_brute_force(q.data(), b.ids.data(), k, f, b.items.data());
      drive(t);
      c.check(b.ids == x.ids && b.items == x.items, "the coroutine brute force search disagrees with the blocking one");
    }
    if (has_view) {
      for (bool brute : {false, true}) {
        auto b = empty(k);
        if (!view.try_hybrid_search(q.data(), b.ids.data(), info, f, brute, b.items.data())) {
          continue;
        }
        c.label("view used");
        auto got = judge(b, q, k, match, brute ? kExact : iterative ? kValid : kCount, brute ? "brute force in the partitioned view" : "search in the partitioned view");
        if (!brute && !iterative && wide && d.style == 0 && params.max_nbrs_ >= 16 && d.metric == MetricType::L2) {
          tally(b, q, k, got);
        }
      }
    }
    refused(info, f, solo);
  }

  void tally(const Out &o, const std::vector<T> &q, uint32_t k, const std::vector<double> &best) {
    for (uint32_t i = 0; i < k && o.ids[i] != static_cast<Id>(-1); ++i) {
      hits += d.dist(q.data(), d.at(o.ids[i])) <= best.back();
    }
    sought += best.size();
  }

  template <class F>
  void refused(SearchInfo info, const MetadataFilter &f, F &&solo) {
    auto bad = info;
    if (c.flip()) {
      bad.topk_ = 0;
    } else {
      bad.ef_ = bad.topk_ - 1;
    }
    auto b = empty(info.topk_);
    bool thrown = false;
    try {
      solo(bad, b, f);
    } catch (const std::invalid_argument &) {
      thrown = true;
    }
    c.check(thrown, "a search for ", bad.topk_, " results of width ", bad.ef_, " was accepted");
  }
};

template <class S, class B>
void hybrid(Case &c) {
  World<S, B> w(c, c.seed());
  w.start();
  for (size_t i = c.size(3, 12); i > 0; --i) {
    w.ask();
  }
  c.note("found ", w.hits, " of ", w.sought);
  c.check(w.hits * 10 + 20 >= w.sought * 9, "full-width filtered searches found only ", w.hits, " of ", w.sought, " best matches");
  if (w.selective >= 2) {
    c.nontrivial();
  }
}

using alaya::ScalarData;
template <class Id>
using RawItems = alaya::RawSpace<float, float, Id, alaya::SequentialStorage<float, Id>, ScalarData>;
using Raw = alaya::RawSpace<float, float, uint32_t>;
using Bytes = alaya::SequentialStorage<uint8_t, uint32_t>;
using Sq8 = alaya::SQ8Space<float, float, uint32_t, Bytes, ScalarData>;
using Sq4 = alaya::SQ4Space<float, float, uint32_t, Bytes, ScalarData>;
using Rabitq = alaya::RaBitQSpace<float, float, uint32_t, ScalarData>;
}  // namespace

PBT(hybrid_raw, "two filters that select some rows but not all", 60, 900, pbt::Opts{.hang_s = 60}) { hybrid<RawItems<uint32_t>, RawItems<uint32_t>>(c); }
PBT(hybrid_rabitq, "two filters that select some rows but not all", 20, 300, pbt::Opts{.hang_s = 60}) { hybrid<Rabitq, Rabitq>(c); }
#ifndef PBT_SMALL
PBT(hybrid_wide_ids, "two filters that select some rows but not all", 20, 300, pbt::Opts{.hang_s = 60}) { hybrid<RawItems<uint64_t>, RawItems<uint64_t>>(c); }
PBT(hybrid_sq8, "two filters that select some rows but not all", 30, 400, pbt::Opts{.hang_s = 60}) { hybrid<Sq8, Raw>(c); }
PBT(hybrid_sq4, "two filters that select some rows but not all", 30, 400, pbt::Opts{.hang_s = 60}) { hybrid<Sq4, Raw>(c); }
#endif
