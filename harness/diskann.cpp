// The updatable on-disk graph index: histories of build, insert, delete, repair, flush and reopen against a map from
// labels to vectors, with the answers of every kind of search compared with what the graph on disk makes reachable.
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <thread>
#include "gen.hpp"
#include "main.hpp"
#include "index/graph/diskann/diskann_index.hpp"
using namespace alaya::diskann;
namespace fs = std::filesystem;

namespace {

using Vec = std::vector<float>;
constexpr uint64_t kNone = DiskANNIndex::kNoLabel;
constexpr uint32_t kWide = 600;  // search width above every index size used with it

float dist2(const float *a, const float *b, size_t dim) {
  double s = 0;
  for (size_t i = 0; i < dim; ++i) s += (double(a[i]) - b[i]) * (double(a[i]) - b[i]);
  return static_cast<float>(s);
}

// Integer coordinates keep every squared distance exact in single precision.
Vec point(pbt::Rng &r, size_t dim, int style) {
  Vec v(dim);
  if (dim > 64) {
    for (auto &x : v) x = static_cast<float>(r.range(-9, 9));
    return v;
  }
  switch (style) {
    case 0:
      for (auto &x : v) x = static_cast<float>(r.range(-40, 40));
      break;
    case 1:  // many equal vectors
      for (auto &x : v) x = static_cast<float>(r.below(2));
      break;
    case 2: {  // clusters
      const float c = static_cast<float>(r.below(5)) * 60.F - 120.F;
      for (auto &x : v) x = c + static_cast<float>(r.range(-3, 3));
      break;
    }
    default: {  // a line
      const float c = static_cast<float>(r.range(-100, 100));
      for (auto &x : v) x = c;
    }
  }
  return v;
}

struct Setup {
  uint64_t dim = 0;
  DiskANNBuildParams build;
  DiskANNLoadParams load;
  int style = 0;
};

void gen_load(pbt::Case &c, DiskANNLoadParams &l) {
  l.updatable = true;
  l.num_threads = c.pick({1U, 2U, 4U});
  l.beam_width = c.pick({1U, 2U, 4U, 9U});
  l.nopq_io_depth = c.pick({0U, 1U, 4U, 40U});
  l.scratch_search_list_size = kWide;
  l.update_search_l = c.pick({0U, kWide});
  l.update_rerank = c.flip();
  l.update_insert_prune = c.chance(1, 4);
  l.update_alpha = c.pick({1.0F, 1.2F, 2.0F});
  l.safety_net_ratio = c.pick({0.05, 0.5});
  l.safety_net_ops = c.pick({uint64_t{1}, uint64_t{4}, uint64_t{1000}});
  l.page_cache_capacity = c.pick({size_t{0}, size_t{1}, size_t{64}, size_t{128}, size_t{4096}});
  l.update_insert_threads = c.pick({1U, 2U, 4U});
  l.update_reconnect_threads = c.pick({1U, 2U});
  l.update_io = c.flip() ? DiskANNUpdateIO::kAuto : DiskANNUpdateIO::kBlocking;
  l.update_search_concurrency = c.pick({0U, 1U, 3U});
  l.search_page_cache = !c.chance(1, 4);
}

Setup gen_setup(pbt::Case &c) {
  Setup s;
  s.build.pq_n_chunks = c.chance(1, 3) ? c.pick({1U, 2U, 4U}) : 0;
  s.dim = c.weighted({8, 1}) == 0 ? static_cast<uint64_t>(c.size(1, 24)) : c.pick({uint64_t{300}, uint64_t{1020}, uint64_t{1100}});
  if (s.build.pq_n_chunks) s.dim = (s.dim + 3) / 4 * 4;
  s.build.R = c.pick({2U, 4U, 8U, 16U, 40U, 130U});
  s.build.record_capacity = c.chance(1, 3) ? s.build.R + static_cast<uint32_t>(c.size(1, 40)) : 0;
  s.build.L = c.pick({10U, 40U, 100U});
  s.build.alpha = c.pick({1.0F, 1.2F, 1.5F, 1e6F});
  s.build.cache_ratio = c.pick({0.0, 0.05, 0.5, 1.0});
  s.build.num_threads = c.pick({1U, 2U});
  s.build.pq_train_iters = 3;
  s.build.seed = c.seed();
  s.style = static_cast<int>(c.weighted({4, 1, 2, 1}));
  gen_load(c, s.load);
  return s;
}

struct Live {
  Vec v;
  uint32_t slot;
};

struct World {
  pbt::Case &c;
  Setup s;
  fs::path dir;
  std::unique_ptr<DiskANNIndex> idx;
  std::map<uint64_t, Live> live;
  std::map<uint32_t, uint64_t> owner;  // slot -> live label
  pbt::Rng r;
  std::set<uint64_t> used;
  uint64_t next_label = 0;
  bool readonly = false;
  bool roomy = false;  // every live vector must stay reachable

  World(pbt::Case &cc, Setup ss) : c(cc), s(std::move(ss)), dir(cc.dir() / "index"), r(cc.seed()) {}
  ~World() { idx.reset(); }

  [[nodiscard]] uint32_t capacity() const { return s.build.record_capacity ? s.build.record_capacity : s.build.R; }
  uint64_t fresh_label() {
    uint64_t l;
    do {
      switch (r.below(4)) {
        case 0:
          l = next_label++;
          break;
        case 1:
          l = r.next();
          break;
        case 2:
          l = kNone - 1 - r.below(50);
          break;
        default:  // a label given back by a delete
          l = used.empty() ? next_label++ : *std::next(used.begin(), static_cast<long>(r.below(used.size())));
      }
    } while (l == kNone || live.contains(l));
    used.insert(l);
    return l;
  }
  Vec vec() {
    if (!live.empty() && r.below(6) == 0) return std::next(live.begin(), static_cast<long>(r.below(live.size())))->second.v;
    return point(r, s.dim, s.style);
  }

  void build(size_t n) {
    std::vector<float> data;
    std::vector<uint64_t> labels;
    for (size_t i = 0; i < n; ++i) {
      Vec v = vec();
      uint64_t l = fresh_label();
      live[l] = {v, static_cast<uint32_t>(i)};
      owner[static_cast<uint32_t>(i)] = l;
      labels.push_back(l);
      data.insert(data.end(), v.begin(), v.end());
    }
    DiskANNIndex::build(dir.string(), data.data(), labels.data(), n, s.dim, s.build);
  }
  void open() {
    if (!idx) idx = std::make_unique<DiskANNIndex>();
    idx->load(dir.string(), s.load);
    readonly = !s.load.updatable;
    counts("reopened");
  }

  void added(uint64_t label, const Vec &v, uint32_t slot) {
    c.check(!owner.contains(slot), "slot ", slot, " given to label ", label, " while it holds live label ", owner.contains(slot) ? owner[slot] : 0);
    live[label] = {v, slot};
    owner[slot] = label;
  }
  void removed(uint64_t label) {
    owner.erase(live.at(label).slot);
    live.erase(label);
  }
  uint64_t any_live() { return std::next(live.begin(), static_cast<long>(r.below(live.size())))->first; }

  void counts(const char *when) {
    c.check(idx->size() == live.size() && idx->live_count() == live.size(), when, ": size() is ", idx->size(), " with ",
            live.size(), " live vectors");
    c.check(idx->dim() == s.dim && idx->has_pq() == (s.build.pq_n_chunks > 0), when, ": wrong dim or pq flag");
    c.check(idx->max_slot_id() == live.size() + idx->free_slot_count(), when, ": ", idx->max_slot_id(), " slots, ", live.size(),
            " live, ", idx->free_slot_count(), " free");
    c.check(idx->tombstone_count() == idx->free_slot_count(), when, ": ", idx->tombstone_count(), " tombstones and ",
            idx->free_slot_count(), " free slots");
    for (auto &[l, x] : live) {
      c.check(idx->contains_label(l), when, ": label ", l, " is not contained");
      c.check(!idx->is_deleted(x.slot), when, ": slot ", x.slot, " of live label ", l, " counts as deleted");
    }
    for (auto l : used) c.check(idx->contains_label(l) == live.contains(l), when, ": contains_label(", l, ") is wrong");
  }

  // Live slots that can be reached from the entry point over the graph in the file.
  std::set<uint32_t> reachable() {
    DiskPageIO io((dir / "diskann.index").string(), DiskLayoutGeometry::compute(s.dim, capacity()), 0);
    std::set<uint32_t> seen{idx->medoid()}, out;
    std::vector<uint32_t> todo{idx->medoid()};
    while (!todo.empty()) {
      uint32_t x = todo.back();
      todo.pop_back();
      if (owner.contains(x)) out.insert(x);
      auto nd = io.read_node(x);
      c.check(nd.nbrs.size() <= capacity(), "node ", x, " has ", nd.nbrs.size(), " links, more than ", capacity());
      if (owner.contains(x))
        c.check(nd.coords == live.at(owner.at(x)).v, "slot ", x, " does not hold the vector of label ", owner.at(x));
      std::set<uint32_t> own;
      for (auto m : nd.nbrs) {
        c.check(m < idx->max_slot_id(), "node ", x, " links to slot ", m, " of ", idx->max_slot_id());
        if (owner.contains(x)) c.check(m != x && own.insert(m).second, "node ", x, " links to ", m, " twice or to itself");
        if (owner.contains(m) && seen.insert(m).second) todo.push_back(m);
      }
    }
    return out;
  }

  // One row of results. `exact`: the reachable live vectors, whose nearest k must be the answer.
  void row(const char *how, const Vec &q, uint32_t k, const uint64_t *labels, const float *dists, const std::set<uint32_t> *exact) {
    std::vector<float> best;
    if (exact) {
      for (auto sl : *exact) best.push_back(dist2(q.data(), live.at(owner.at(sl)).v.data(), s.dim));
      std::sort(best.begin(), best.end());
      if (best.size() > k) best.resize(k);
    }
    std::set<uint64_t> seen;
    uint32_t count = 0;
    while (count < k && labels[count] != kNone) ++count;
    for (uint32_t i = count; i < k; ++i)
      c.check(labels[i] == kNone && dists[i] == std::numeric_limits<float>::max(), how, ": result ", i, " of ", k, " after the ",
              count, " found is not padding");
    for (uint32_t i = 0; i < count; ++i) {
      c.check(live.contains(labels[i]), how, ": result ", i, " is label ", labels[i], ", which is not live");
      c.check(seen.insert(labels[i]).second, how, ": label ", labels[i], " returned twice");
      float d = dist2(q.data(), live.at(labels[i]).v.data(), s.dim);
      c.check(d == dists[i], how, ": label ", labels[i], " has distance ", dists[i], ", expected ", d);
      c.check(i == 0 || dists[i - 1] <= dists[i], how, ": distances not ascending at ", i);
    }
    if (exact) {
      c.check(count == best.size(), how, ": ", count, " results for k=", k, " with ", exact->size(), " reachable of ", live.size(), " live");
      for (uint32_t i = 0; i < count; ++i)
        c.check(dists[i] == best[i], how, ": result ", i, " has distance ", dists[i], ", the ", i, "-th nearest has ", best[i]);
    }
  }

  void search(const std::set<uint32_t> *exact) {
    const uint32_t k = static_cast<uint32_t>(c.size(1, 12));
    const uint32_t nq = static_cast<uint32_t>(c.size(1, 5));
    DiskANNSearchParams p;
    p.search_list_size = exact ? kWide : c.pick({1U, 3U, 10U, 60U});
    p.use_pq = c.flip();
    const bool pq = p.use_pq && s.build.pq_n_chunks > 0;
    p.rerank = !pq || exact || c.flip();
    if (pq) p.rerank_count = exact ? kWide : c.pick({0U, k, 100U});
    p.deterministic = c.flip();
    std::vector<Vec> qs;
    Vec flat;
    for (uint32_t i = 0; i < nq; ++i) qs.push_back(vec()), flat.insert(flat.end(), qs.back().begin(), qs.back().end());
    std::vector<uint64_t> ls(nq * k), lb(nq * k);
    std::vector<float> ds(nq * k), db(nq * k);
    for (uint32_t i = 0; i < nq; ++i) {
      uint32_t got = idx->search(qs[i].data(), k, ls.data() + i * k, ds.data() + i * k, p);
      row("search", qs[i], k, ls.data() + i * k, ds.data() + i * k, exact);
      uint32_t n = 0;
      while (n < k && ls[i * k + n] != kNone) ++n;
      c.check(got == n, "search reports ", got, " results and writes ", n);
    }
    idx->batch_search(flat.data(), nq, k, lb.data(), db.data(), c.pick({0U, 1U, 2U, 3U, 8U}), p);
    for (uint32_t i = 0; i < nq; ++i) row("batch_search", qs[i], k, lb.data() + i * k, db.data() + i * k, exact);
    if (p.deterministic) c.check(lb == ls && db == ds, "a deterministic batch differs from single searches");
    if (!readonly && s.load.update_io == DiskANNUpdateIO::kAuto && alaya::UringReactor::is_available() && c.flip()) {
      p.rerank = false;
      idx->search_pipelined(flat.data(), nq, k, lb.data(), db.data(), c.pick({1U, 2U, 3U}), c.pick({0U, 1U, 2U, 7U}), p);
      for (uint32_t i = 0; i < nq; ++i) row("search_pipelined", qs[i], k, lb.data() + i * k, db.data() + i * k, exact);
      c.label("pipelined");
    }
  }

  void checkpoint() {
    c.label("exact answers");
    counts("history");
    if (!readonly) c.flip() ? idx->flush_pages() : idx->flush();
    auto reach = reachable();
    if (roomy) c.check(reach.size() == live.size(), "only ", reach.size(), " of ", live.size(), " live vectors can be reached");
    for (int i = 0; i < 2; ++i) search(&reach);
  }

  template <class F>
  void refused(const char *what, F &&f) {
    bool threw = false;
    try {
      f();
    } catch (const std::logic_error &) {
      threw = true;
    }
    c.check(threw, what, " is accepted");
    counts(what);
  }

  void insert() {
    Vec v = vec();
    uint64_t l = fresh_label();
    added(l, v, idx->insert(v.data(), l));
  }
  void batch_insert(size_t n) {
    std::vector<Vec> vs;
    std::vector<uint64_t> ls;
    Vec flat;
    for (size_t i = 0; i < n; ++i) {
      vs.push_back(vec());
      uint64_t l;
      do l = fresh_label();
      while (std::find(ls.begin(), ls.end(), l) != ls.end());
      ls.push_back(l);
      flat.insert(flat.end(), vs.back().begin(), vs.back().end());
    }
    std::vector<uint32_t> slots;
    const uint32_t bs = c.pick({1U, 2U, 5U, 32U});
    if (c.flip()) {
      coro::thread_pool pool{{.thread_count = c.pick({1U, 3U}), .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr}};
      slots = idx->batch_insert_with_pool(flat.data(), ls.data(), static_cast<uint32_t>(n), bs, pool);
      pool.shutdown();
    } else {
      slots = idx->batch_insert(flat.data(), ls.data(), static_cast<uint32_t>(n), bs);
    }
    c.check(slots.size() == n, "batch_insert of ", n, " returns ", slots.size(), " slots");
    for (size_t i = 0; i < n; ++i) added(ls[i], vs[i], slots[i]);
  }
  void remove_some(size_t n) {
    std::vector<uint64_t> ls;
    if (n >= live.size()) {
      for (auto &[l, x] : live) ls.push_back(l);
      if (r.flip()) std::reverse(ls.begin(), ls.end());
    }
    for (size_t i = 0; i < n && n < live.size(); ++i) {
      uint64_t l = any_live();
      if (std::find(ls.begin(), ls.end(), l) == ls.end()) ls.push_back(l);
    }
    std::vector<uint32_t> slots;
    for (auto l : ls) slots.push_back(live.at(l).slot);
    const auto cnt = static_cast<uint32_t>(ls.size());
    switch (c.raw(4)) {
      case 0:
        for (auto sl : slots) idx->remove(sl);
        break;
      case 1:
        for (auto l : ls) idx->remove_by_label(l);
        break;
      case 2:
        idx->batch_remove(slots.data(), cnt);
        break;
      case 3:
        idx->batch_remove_by_labels(ls.data(), cnt);
        break;
      default: {
        coro::thread_pool pool{{.thread_count = 2, .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr}};
        idx->batch_remove_with_pool(slots.data(), cnt, pool);
        pool.shutdown();
      }
    }
    for (auto l : ls) removed(l);
  }
  uint64_t unknown_label() {
    uint64_t l;
    do l = r.below(1000);
    while (live.contains(l));
    return l;
  }
  void invalid() {
    Vec v = vec();
    std::vector<float> two(v);
    two.insert(two.end(), v.begin(), v.end());
    switch (c.raw(8)) {
      case 0:
        if (live.empty()) return;
        return refused("inserting a live label", [&] { idx->insert(v.data(), any_live()); });
      case 1:
        return refused("inserting the reserved label", [&] { idx->insert(v.data(), kNone); });
      case 2: {
        uint64_t l = fresh_label(), ls[2] = {l, l};
        return refused("a batch with one label twice", [&] { (void)idx->batch_insert(two.data(), ls, 2); });
      }
      case 3: {
        if (live.empty()) return;
        uint64_t ls[2] = {fresh_label(), any_live()};
        return refused("a batch with a live label", [&] { (void)idx->batch_insert(two.data(), ls, 2); });
      }
      case 4:
        return refused("removing an unknown label", [&] { idx->remove_by_label(unknown_label()); });
      case 5: {
        if (live.empty()) return;
        uint64_t ls[2] = {any_live(), unknown_label()};
        return refused("a batch removal with an unknown label", [&] { idx->batch_remove_by_labels(ls, 2); });
      }
      case 6: {
        if (live.empty()) return;
        uint32_t x = live.at(any_live()).slot, ls[2] = {x, x};
        return refused("a batch removal with one slot twice", [&] { idx->batch_remove(ls, 2); });
      }
      case 7: {
        auto sl = static_cast<uint32_t>(idx->max_slot_id() + r.below(3));
        return refused("removing a slot out of range", [&] { r.flip() ? idx->remove(sl) : idx->update_node(sl); });
      }
      default: {
        for (uint32_t sl = 0; sl < idx->max_slot_id(); ++sl)
          if (!owner.contains(sl)) return refused("removing a removed slot", [&] { idx->remove(sl); });
      }
    }
  }
  void reopen(bool regenerate) {
    idx->flush();
    if (regenerate) gen_load(c, s.load);
    if (c.flip()) idx.reset();
    if (c.chance(1, 4)) {  // a read-only open must see the same contents
      auto keep = s.load;
      s.load.updatable = false;
      open();
      checkpoint();
      bool threw = false;
      try {
        Vec v = vec();
        idx->insert(v.data(), fresh_label());
      } catch (const std::runtime_error &) {
        threw = true;
      }
      c.check(threw, "a read-only index accepts an insert");
      s.load = keep;
      if (c.flip()) idx.reset();
    }
    open();
    c.label("reopened");
  }
};

}  // namespace

PBT(histories, "at least one insert and one delete, and a search with vectors live", 250, 4000) {
  World w(c, gen_setup(c));
  w.build(static_cast<size_t>(c.chance(1, 6) ? c.size(1, 200) : c.size(1, 40)));
  w.open();
  w.search(nullptr);
  bool ins = false, del = false;
  const int ops = static_cast<int>(c.size(1, 24));
  for (int i = 0; i < ops; ++i) {
    switch (c.weighted({6, 3, 5, 1, 1, 2, 2, 2, 1})) {
      case 0:
        w.insert(), ins = true;
        break;
      case 1:
        w.batch_insert(static_cast<size_t>(c.size(1, 40))), ins = true;
        break;
      case 2:
        w.remove_some(static_cast<size_t>(c.chance(1, 8) ? 400 : c.size(1, 12))), del = true;
        break;
      case 3:
        if (!w.live.empty()) w.idx->update_node(w.live.at(w.any_live()).slot);
        break;
      case 4:
        c.flip() ? w.idx->flush() : w.idx->flush_pages();
        break;
      case 5:
        w.search(nullptr);
        break;
      case 6:
        w.invalid();
        break;
      case 7:
        w.checkpoint();
        break;
      default:
        w.reopen(c.flip());
    }
    c.note(i, ": ", w.live.size(), " live");
  }
  w.checkpoint();
  w.reopen(false);
  w.checkpoint();
  if (ins && del && !w.live.empty()) c.nontrivial();
}

// Where every node has room for links to all others, one insert at a time keeps the graph complete: nothing may be lost.
PBT(complete, "a deletion and an insertion after it", 150, 2500) {
  Setup s = gen_setup(c);
  s.build.R = 40, s.build.alpha = 1e6F, s.build.L = 100, s.build.record_capacity = c.pick({0U, 60U});
  s.load.update_search_l = kWide, s.load.update_insert_prune = false;
  if (c.flip()) s.build.pq_n_chunks = 0;
  World w(c, s);
  w.build(static_cast<size_t>(c.size(1, 3)));
  w.open();
  w.roomy = w.reachable().size() == w.live.size();
  bool del = false, after = false;
  const int ops = static_cast<int>(c.size(1, 40));
  for (int i = 0; i < ops; ++i) {
    switch (c.weighted({8, 5, 1, 1, 1})) {
      case 0:
        if (w.live.size() < 38) w.insert(), after = after || del;
        break;
      case 1:
        w.remove_some(static_cast<size_t>(c.chance(1, 6) ? 100 : c.size(1, 4))), del = true;
        break;
      case 2:
        if (!w.live.empty()) w.idx->update_node(w.live.at(w.any_live()).slot);
        break;
      case 3:
        w.reopen(false);
        break;
      default:
        w.checkpoint();
    }
  }
  w.checkpoint();
  if (after) c.nontrivial();
}

// Updates while other threads search: every answer must pair a label with the one vector it is ever given.
PBT(concurrent_searches, "every case", 40, 600) {
  Setup s = gen_setup(c);
  s.dim = 8, s.build.R = 16, s.build.record_capacity = 0;
  if (s.build.pq_n_chunks) s.build.pq_n_chunks = 4;
  s.load.num_threads = 4;
  auto vec_of = [&](uint64_t label) {
    pbt::Rng r(label * 7919 + 13);
    return point(r, s.dim, 0);
  };
  const size_t n = static_cast<size_t>(c.size(5, 60));
  std::vector<float> data;
  std::vector<uint64_t> labels;
  for (size_t i = 0; i < n; ++i) {
    auto v = vec_of(i);
    labels.push_back(i), data.insert(data.end(), v.begin(), v.end());
  }
  auto dir = c.dir() / "index";
  DiskANNIndex::build(dir.string(), data.data(), labels.data(), n, s.dim, s.build);
  DiskANNIndex idx;
  idx.load(dir.string(), s.load);
  std::atomic<bool> stop{false};
  std::atomic<uint64_t> answers{0};
  std::mutex mu;
  std::string wrong;
  const bool wide = c.flip(), use_pq = c.flip(), det = c.flip();
  const uint64_t seed = c.seed();
  std::vector<std::thread> ts;
  for (int t = 0; t < 3; ++t)
    ts.emplace_back([&, t] {
      pbt::Rng r(seed + static_cast<uint64_t>(t));
      uint64_t ls[10];
      float ds[10];
      DiskANNSearchParams p;
      p.search_list_size = wide ? 300 : 20;
      p.use_pq = use_pq, p.deterministic = det;
      while (!stop) {
        Vec q = point(r, s.dim, 0);
        std::string bad;
        try {
          const uint32_t got = idx.search(q.data(), 10, ls, ds, p);
          std::set<uint64_t> seen;
          for (uint32_t i = 0; i < got && bad.empty(); ++i) {
            auto v = vec_of(ls[i]);
            if (ls[i] == kNone) bad = "an answer without a label";
            else if (!seen.insert(ls[i]).second) bad = "one label twice";
            else if (dist2(q.data(), v.data(), s.dim) != ds[i])
              bad = "label " + std::to_string(ls[i]) + " with distance " + std::to_string(ds[i]) + ", expected " + std::to_string(dist2(q.data(), v.data(), s.dim));
            else if (i && ds[i - 1] > ds[i]) bad = "distances not ascending";
          }
          answers += got;
        } catch (const std::exception &e) {
          bad = std::string("exception ") + e.what();
        }
        if (!bad.empty()) {
          std::lock_guard<std::mutex> g(mu);
          if (wrong.empty()) wrong = bad;
          return;
        }
      }
    });
  pbt::Rng r(c.seed());
  std::vector<uint64_t> live = labels;
  uint64_t next = n;
  std::string failed;
  try {
    for (int i = 0; i < 60 && wrong.empty(); ++i) {
      if (r.flip() && live.size() > 3) {
        size_t at = r.below(live.size());
        idx.remove_by_label(live[at]);
        live.erase(live.begin() + static_cast<long>(at));
      } else if (r.below(3) == 0) {
        std::vector<uint64_t> ls;
        Vec flat;
        for (int j = 0; j < 6; ++j) {
          auto v = vec_of(next);
          ls.push_back(next++), flat.insert(flat.end(), v.begin(), v.end());
        }
        (void)idx.batch_insert(flat.data(), ls.data(), 6, 3);
        live.insert(live.end(), ls.begin(), ls.end());
      } else {
        auto v = vec_of(next);
        (void)idx.insert(v.data(), next);
        live.push_back(next++);
      }
      if (r.below(10) == 0) idx.flush_pages();
    }
  } catch (const std::exception &e) {
    failed = e.what();
  }
  stop = true;
  for (auto &t : ts) t.join();
  c.check(failed.empty(), "an update failed: ", failed);
  c.check(wrong.empty(), "a search during updates returned ", wrong);
  c.check(idx.size() == live.size(), "size ", idx.size(), " instead of ", live.size());
  for (auto l : live) c.check(idx.contains_label(l), "label ", l, " lost");
  c.nontrivial();
}

// Heavy deletion in a graph without room to spare: what is inserted afterwards must be found.
PBT(emptied, "at least one vector inserted after the deletions", 120, 2000) {
  Setup s = gen_setup(c);
  s.build.R = c.pick({4U, 8U, 16U}), s.build.record_capacity = 0, s.build.L = 60, s.build.alpha = 1.2F;
  s.load.update_search_l = kWide, s.load.update_insert_prune = false;
  World w(c, s);
  w.build(static_cast<size_t>(c.size(1, 80)));
  w.open();
  const int rounds = static_cast<int>(c.size(1, 3));
  for (int i = 0; i < rounds; ++i) {
    // Everything, or everything but a few: the entry point and all its links are usually among the removed.
    const size_t keep = c.flip() ? 0 : static_cast<size_t>(c.size(1, 4));
    while (w.live.size() > keep) w.remove_some(c.flip() ? w.live.size() - keep : 1);
    if (c.chance(1, 3)) w.reopen(false);
    const int fresh = static_cast<int>(c.size(1, static_cast<int64_t>(s.build.R)));
    std::set<uint64_t> before;
    for (auto &[l, x] : w.live) before.insert(l);
    if (c.flip()) {
      for (int j = 0; j < fresh; ++j) w.insert();
    } else {
      w.batch_insert(static_cast<size_t>(fresh));
    }
    c.nontrivial();
    w.idx->flush_pages();
    auto reach = w.reachable();
    // With at most R vectors live, no link of a new vector has to give way.
    if (w.live.size() <= s.build.R)
      for (auto &[l, x] : w.live)
        c.check(before.contains(l) || reach.contains(x.slot), "label ", l, ", inserted after ", before.size(), " vectors were left, cannot be reached");
    if (!w.live.empty()) c.check(!reach.empty(), "no live vector can be reached");
    w.search(&reach);
  }
}

// The defaults of an updatable index must work for any degree.
PBT(defaults, "every case", 12, 120) {
  Setup s;
  s.dim = 4, s.build.R = c.pick({64U, 120U, 130U, 200U}), s.build.num_threads = 2, s.build.seed = c.seed();
  s.build.pq_n_chunks = c.chance(1, 4) ? 2 : 0;
  s.load.updatable = true, s.load.update_insert_threads = c.pick({1U, 2U, 4U}), s.load.num_threads = 2;
  s.load.update_io = c.flip() ? DiskANNUpdateIO::kAuto : DiskANNUpdateIO::kBlocking;
  World w(c, s);
  w.build(static_cast<size_t>(c.size(150, 330)));
  w.open();
  for (int i = 0; i < 4; ++i) {
    c.flip() ? w.insert() : w.batch_insert(5);
    if (c.flip()) w.remove_some(5);
    w.search(nullptr);
  }
  w.counts("end");
  c.nontrivial();
}

// A graph with room turned over several times stays connected, and answers with the documented defaults stay good.
PBT(churn, "every case", 16, 200) {
  Setup s;
  s.dim = 8, s.build.R = 24, s.build.L = 80, s.build.num_threads = 1, s.build.seed = c.seed();
  s.build.pq_n_chunks = c.chance(1, 4) ? 8 : 0;
  gen_load(c, s.load);
  s.load.update_search_l = 0, s.load.update_alpha = 1.2F;
  World w(c, s);
  w.build(static_cast<size_t>(c.size(150, 300)));
  w.open();
  for (int i = 0; i < 3; ++i) {
    const size_t n = w.live.size() * 3 / 10;
    for (size_t done = 0; done < n; done += 20) w.remove_some(20);
    if (c.flip()) {
      for (size_t j = 0; j < n; ++j) w.insert();
    } else {
      w.batch_insert(n);
    }
    if (c.chance(1, 3)) w.reopen(false);
  }
  w.idx->flush_pages();
  auto reach = w.reachable();
  c.check(reach.size() * 100 >= w.live.size() * 85, "only ", reach.size(), " of ", w.live.size(), " live vectors can be reached");
  w.search(&reach);
  size_t hit = 0, all = 0;
  for (int i = 0; i < 20; ++i) {
    Vec q = point(w.r, s.dim, 0);
    std::vector<float> best, d(10);
    for (auto &[l, x] : w.live) best.push_back(dist2(q.data(), x.v.data(), s.dim));
    std::sort(best.begin(), best.end());
    std::vector<uint64_t> ls(10);
    uint32_t got = w.idx->search(q.data(), 10, ls.data(), d.data());
    for (uint32_t j = 0; j < got; ++j) hit += d[j] <= best[9];
    all += 10;
  }
  c.check(hit * 10 >= all * 8, "recall of default searches is ", hit, "/", all);
  c.nontrivial();
}

// Reads that fail must surface: an update either reports its error or has happened.
PBT(failing_reads, "an update failed", 60, 600) {
  Setup s = gen_setup(c);
  s.dim = 500, s.build.R = c.pick({4U, 16U}), s.build.record_capacity = 0, s.build.pq_n_chunks = 0, s.build.cache_ratio = 0;
  World w(c, s);
  const size_t n = static_cast<size_t>(c.size(10, 40));
  w.build(n);
  w.open();
  fs::resize_file(w.dir / "diskann.index", fs::file_size(w.dir / "diskann.index") * static_cast<uint64_t>(c.size(1, 9)) / 10 / 4096 * 4096);
  std::vector<uint64_t> labels;
  Vec flat;
  const size_t k = static_cast<size_t>(c.size(1, 8));
  for (size_t i = 0; i < k; ++i) {
    Vec v = w.vec();
    labels.push_back(1000000 + i), flat.insert(flat.end(), v.begin(), v.end());
  }
  try {
    std::vector<uint32_t> slots;
    if (c.flip()) {
      slots = w.idx->batch_insert(flat.data(), labels.data(), static_cast<uint32_t>(k), 4);
    } else {
      for (size_t i = 0; i < k; ++i) slots.push_back(w.idx->insert(flat.data() + i * s.dim, labels[i]));
    }
    for (size_t i = 0; i < k; ++i) {
      c.check(w.idx->contains_label(labels[i]), "an insert that failed to read reports success");
      c.check(slots[i] >= n, "a slot in use is reported for a new vector");
    }
  } catch (const std::runtime_error &) {
    c.nontrivial();
  }
  uint64_t l = 0;
  float d = 0;
  try {
    (void)w.idx->search(flat.data(), 1, &l, &d);
  } catch (const std::runtime_error &) {
  }
}

// One object, loaded with one index after another.
PBT(object_reused, "every case", 40, 400) {
  std::unique_ptr<DiskANNIndex> idx;
  for (int i = 0; i < 3; ++i) {
    Setup s = gen_setup(c);
    World w(c, s);
    w.dir = c.dir() / ("index" + std::to_string(i));
    w.build(static_cast<size_t>(c.size(1, 60)));
    w.idx = std::move(idx);
    w.open();
    w.insert();
    w.remove_some(2);
    w.checkpoint();
    w.idx->flush();
    idx = std::move(w.idx);
  }
  c.nontrivial();
}

// Calls that must be refused, with nothing left behind.
PBT(refused_builds, "every case", 60, 600) {
  Setup s = gen_setup(c);
  s.build.pq_n_chunks = 0;
  const size_t n = static_cast<size_t>(c.size(1, 10));
  pbt::Rng r(c.seed());
  Vec data;
  std::vector<uint64_t> labels;
  for (size_t i = 0; i < n; ++i) {
    auto v = point(r, s.dim, 0);
    data.insert(data.end(), v.begin(), v.end());
    labels.push_back(i * 3);
  }
  auto dir = c.dir() / "index";
  const float *vp = data.data();
  const uint64_t *lp = labels.data();
  uint64_t cnt = n, dim = s.dim;
  const char *what = nullptr;
  switch (c.raw(6)) {
    case 0:
      what = "no vectors", cnt = 0;
      break;
    case 1:
      what = "no dimensions", dim = 0;
      break;
    case 2:
      what = "null vectors", vp = nullptr;
      break;
    case 3:
      what = "null labels", lp = nullptr;
      break;
    case 4:
      what = "a reserved label", labels[r.below(n)] = kNone;
      break;
    case 5:
      what = "a label twice", labels.push_back(labels[0]), data.resize(data.size() + s.dim), cnt = n + 1, vp = data.data(), lp = labels.data();
      break;
    default:
      what = "a record capacity below the degree", s.build.record_capacity = s.build.R - 1;
  }
  bool threw = false;
  try {
    DiskANNIndex::build(dir.string(), vp, lp, cnt, dim, s.build);
  } catch (const std::exception &) {
    threw = true;
  }
  c.check(threw, "a build with ", what, " is accepted");
  c.check(!fs::exists(dir), "a refused build leaves its directory behind");
  // An existing directory is never overwritten.
  s.build.record_capacity = 0;
  labels.resize(n);
  for (size_t i = 0; i < n; ++i) labels[i] = i;
  DiskANNIndex::build(dir.string(), data.data(), labels.data(), n, s.dim, s.build);
  threw = false;
  try {
    DiskANNIndex::build(dir.string(), data.data(), labels.data(), n, s.dim, s.build);
  } catch (const std::exception &) {
    threw = true;
  }
  c.check(threw && fs::exists(dir / "meta.bin"), "a second build over an index is accepted or destroys it");
  DiskANNIndex idx;
  s.load.updatable = false;
  idx.load(dir.string(), s.load);
  uint64_t l = 0;
  float d = 0;
  c.check(idx.search(data.data(), 1, &l, &d) == 1 && l < n, "no vector is found");
  // A failing search inside a batch must reach the caller.
  DiskANNSearchParams p;
  bool batch_threw = false;
  try {
    idx.batch_search(data.data(), static_cast<uint32_t>(n), 1, nullptr, nullptr, 4, p);
  } catch (const std::invalid_argument &) {
    batch_threw = true;
  }
  c.check(batch_threw, "a batch search without output buffers is accepted");
  c.nontrivial();
}
