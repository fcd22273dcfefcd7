// Candidate pools, visited sets and per-query scratch: every operation sequence against sorted / plain containers.
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include "gen.hpp"
#include "main.hpp"
#include "index/graph/diskann/search_scratch.hpp"
#include "index/graph/hnsw/visited_list_pool.hpp"
#include "index/graph/laser/utils/buffer.hpp"
#include "index/graph/vamana/robust_prune.hpp"
#include "index/neighbor.hpp"
#include "third_party/ngt/hashset.hpp"
#include "utils/query_utils.hpp"
#include "utils/rabitq_utils/search_utils/buffer.hpp"
#include "utils/rabitq_utils/search_utils/hashset.hpp"
#include "utils/rabitq_utils/search_utils/visited_pool.hpp"
using namespace pbt;

namespace {
struct Entry {
  uint64_t id;
  float dist;
};

float draw_dist(Case &c, int style) {
  switch (style) {
    case 0: return static_cast<float>(c.raw(6));                       // many ties
    case 1: return static_cast<float>(c.raw(1000)) * 0.25F;
    case 2: return -static_cast<float>(c.raw(1000));                   // inner products are negative
    default: return c.chance(1, 6) ? std::numeric_limits<float>::max() : static_cast<float>(c.raw(50)) - 25.0F;
  }
}

// The distances a pool of `cap` must hold after `seen` were inserted.
std::vector<float> best_of(const std::vector<Entry> &seen, size_t cap) {
  std::vector<float> d;
  for (const auto &e : seen) d.push_back(e.dist);
  std::sort(d.begin(), d.end());
  if (d.size() > cap) d.resize(cap);
  return d;
}

// Contents must be the best distances in order, and only pairs that were inserted.
void check_contents(Case &c, const std::vector<Entry> &got, const std::vector<Entry> &seen, size_t cap) {
  auto want = best_of(seen, cap);
  c.check(got.size() == want.size(), "the pool holds ", got.size(), " candidates, expected ", want.size());
  std::multiset<std::pair<uint64_t, float>> avail;
  for (const auto &e : seen) avail.emplace(e.id, e.dist);
  for (size_t i = 0; i < got.size(); ++i) {
    c.check(got[i].dist == want[i], "position ", i, " has distance ", got[i].dist, ", expected ", want[i]);
    auto it = avail.find({got[i].id, got[i].dist});
    c.check(it != avail.end(), "position ", i, " holds id ", got[i].id, " at ", got[i].dist, " which was not inserted (or twice)");
    avail.erase(it);
  }
}

template <class ID>
void linear_pool_case(Case &c) {
  size_t cap = 1 + c.raw(c.flip() ? 4 : 20);
  int style = static_cast<int>(c.raw(3));
  size_t n = 1 + c.raw(200);
  alaya::LinearPool<float, ID> pool(static_cast<ID>(n), static_cast<int>(cap));
  std::vector<Entry> seen;
  std::set<uint64_t> popped;
  size_t ops = 1 + c.raw(60);
  ID next = 0;
  bool overflow = false, rewind = false;
  auto contents = [&] {
    std::vector<Entry> v;
    for (size_t i = 0; i < pool.size(); ++i) v.push_back({static_cast<uint64_t>(pool.id(static_cast<ID>(i))), pool.dist(static_cast<ID>(i))});
    return v;
  };
  for (size_t k = 0; k < ops; ++k) {
    if (c.chance(3, 5) && next < n) {
      float d = draw_dist(c, style);
      auto before = contents();
      bool in = pool.insert(next, d);
      seen.push_back({next, d});
      auto now = contents();
      bool present = std::any_of(now.begin(), now.end(), [&](const Entry &e) { return e.id == static_cast<uint64_t>(next); });
      c.check(in == present, "insert(", next, ", ", d, ") returned ", in, " but the id is ", present ? "in" : "not in", " the pool");
      overflow |= before.size() == cap;
      rewind |= !popped.empty() && in;
      ++next;
    } else if (pool.has_next()) {
      auto now = contents();
      float best = std::numeric_limits<float>::infinity();
      for (auto &e : now) {
        if (!popped.count(e.id)) best = std::min(best, e.dist);
      }
      auto peek = static_cast<uint64_t>(pool.next_id());
      float d = 0;
      uint64_t id = c.flip() ? static_cast<uint64_t>(pool.pop(d)) : (d = best, static_cast<uint64_t>(pool.pop()));
      c.check(id == peek, "pop returned ", id, " but next_id said ", peek);
      c.check(popped.insert(id).second, "id ", id, " was handed out twice");
      auto it = std::find_if(now.begin(), now.end(), [&](const Entry &e) { return e.id == id; });
      c.check(it != now.end(), "popped id ", id, " is not in the pool");
      c.check(it->dist == best && d == best, "popped id ", id, " at ", it->dist, " (reported ", d, ") while the nearest unexpanded is at ", best);
    }
    check_contents(c, contents(), seen, cap);
    auto now = contents();
    bool left = std::any_of(now.begin(), now.end(), [&](const Entry &e) { return !popped.count(e.id); });
    c.check(pool.has_next() == left, "has_next is ", pool.has_next(), " while ", left ? "an" : "no", " unexpanded candidate remains");
    c.check(pool.is_full() == (now.size() == cap), "is_full is wrong at ", now.size(), "/", cap);
  }
  c.label("full", overflow);
  c.label("insert after pop", rewind);
  c.nontrivial(overflow && rewind);
}

// The RaBitQ buffer: contents are visible; ids may repeat with different distances.
void search_buffer_case(Case &c) {
  size_t cap = c.chance(1, 12) ? 0 : 1 + c.raw(c.flip() ? 4 : 20);
  int style = static_cast<int>(c.raw(3));
  alaya::SearchBuffer<float> buf(cap);
  if (c.chance(1, 4)) {
    cap = 1 + c.raw(10);
    buf.resize(cap);
  }
  std::vector<Entry> seen;
  std::multiset<uint64_t> popped;
  constexpr uint32_t kBit = 1U << 31;
  size_t ops = 1 + c.raw(60);
  uint32_t next = 0;
  bool overflow = false, rewind = false, cleared = false;
  auto contents = [&] {
    std::vector<Entry> v;
    for (size_t i = 0; i < buf.size(); ++i) v.push_back({buf.data()[i].id_ & ~kBit, buf.data()[i].distance_});
    return v;
  };
  for (size_t k = 0; k < ops; ++k) {
    size_t op = c.weighted({60, 36, 4});
    if (op == 0) {
      float d = draw_dist(c, style);
      uint32_t id = (next > 0 && c.chance(1, 8)) ? static_cast<uint32_t>(c.raw(next - 1)) : next++;
      for (auto &e : seen) {
        if (e.id == id && e.dist == d) id = next++;
      }
      bool want_in = cap > 0 && (buf.size() < cap || d <= buf.data()[cap - 1].distance_);
      c.check(cap == 0 || buf.is_full(d) == !want_in, "is_full(", d, ") is ", buf.is_full(d));
      overflow |= buf.size() == cap;
      bool in = buf.insert(id, d);
      c.check(in == want_in, "insert(", id, ", ", d, ") returned ", in);
      seen.push_back({id, d});
      rewind |= in && !popped.empty();
    } else if (op == 1 && buf.has_next()) {
      std::vector<std::pair<float, uint32_t>> open;
      for (size_t i = 0; i < buf.size(); ++i) {
        if (!(buf.data()[i].id_ & kBit)) open.emplace_back(buf.data()[i].distance_, buf.data()[i].id_);
      }
      c.check(!open.empty(), "has_next although every candidate was expanded");
      float best = std::min_element(open.begin(), open.end())->first;
      uint32_t peek = buf.next_id(), id = buf.pop();
      c.check(peek == id, "pop returned ", id, " but next_id said ", peek);
      c.check(std::find(open.begin(), open.end(), std::make_pair(best, id)) != open.end(), "popped id ", id, " is not a nearest unexpanded candidate");
      popped.insert(id);
    } else if (op == 2) {
      buf.clear();
      seen.clear();
      popped.clear();
      cleared = true;
    }
    check_contents(c, contents(), seen, cap);
    size_t open = 0;
    for (size_t i = 0; i < buf.size(); ++i) open += !(buf.data()[i].id_ & kBit);
    c.check(buf.has_next() == (open > 0), "has_next is ", buf.has_next(), " with ", open, " unexpanded candidates");
    auto top = buf.top_dist();
    c.check(top == (buf.size() == cap && cap > 0 ? buf.data()[cap - 1].distance_ : std::numeric_limits<float>::max()), "top_dist is ", top);
  }
  if (popped.empty()) {
    size_t want = c.raw(cap + 3);
    std::vector<uint32_t> out(want + 1, 0xABCDABCD);
    buf.copy_results_to(out.data(), want);
    for (size_t i = 0; i < want; ++i) c.check(out[i] == (i < buf.size() ? buf.data()[i].id_ : 0xABCDABCD), "copied result ", i);
    c.check(out[want] == 0xABCDABCD, "copy_results_to wrote past the requested count");
  }
  c.label("cleared", cleared);
  c.nontrivial(overflow && rewind);
}

// The LASER beam buffer shows its contents only through pops; callers ask is_full before inserting.
void laser_buffer_case(Case &c) {
  size_t cap = 1 + c.raw(c.flip() ? 4 : 20);
  int style = static_cast<int>(c.raw(3));
  alaya::laser::buffer::SearchBuffer buf(cap);
  if (c.flip()) {
    cap = 1 + c.raw(12);
    buf.resize(cap);
    buf.clear();
  }
  std::vector<std::pair<float, uint32_t>> pool;  // retained, any order
  std::set<uint32_t> popped;
  uint32_t next = 0;
  size_t ops = 1 + c.raw(80);
  bool overflow = false, rewind = false;
  for (size_t k = 0; k < ops; ++k) {
    size_t op = c.weighted({60, 37, 3});
    if (op == 0) {
      float d = draw_dist(c, style);
      std::sort(pool.begin(), pool.end());
      bool full = pool.size() == cap;
      bool skip = full && d > pool.back().first;
      c.check(buf.is_full(d) == skip, "is_full(", d, ") is ", buf.is_full(d), " with ", pool.size(), "/", cap);
      overflow |= full;
      if (skip && c.flip()) continue;
      // with a tie for the last place the model cannot tell which candidate leaves: keep such a case out
      if (full && std::count_if(pool.begin(), pool.end(), [&](auto &p) { return p.first == pool.back().first; }) > 1 && !skip) continue;
      if (full && d == pool.back().first) continue;
      rewind |= !popped.empty() && !skip;
      buf.insert(next, d);
      pool.emplace_back(d, next++);
      if (full) {
        std::sort(pool.begin(), pool.end());
        pool.pop_back();
      }
    } else if (op == 1 && buf.has_next()) {
      float best = std::numeric_limits<float>::infinity();
      for (auto &p : pool) {
        if (!popped.count(p.second)) best = std::min(best, p.first);
      }
      uint32_t peek = buf.next_id(), id = buf.pop();
      c.check(peek == id, "pop returned ", id, " but next_id said ", peek);
      auto it = std::find_if(pool.begin(), pool.end(), [&](auto &p) { return p.second == id; });
      c.check(it != pool.end(), "popped id ", id, " is not among the best ", cap, " inserted");
      c.check(popped.insert(id).second, "id ", id, " was handed out twice");
      c.check(it->first == best, "popped id ", id, " at ", it->first, " while the nearest unexpanded is at ", best);
    } else if (op == 2) {
      buf.clear();
      pool.clear();
      popped.clear();
    }
    bool left = std::any_of(pool.begin(), pool.end(), [&](auto &p) { return !popped.count(p.second); });
    c.check(buf.has_next() == left, "has_next is ", buf.has_next(), " while ", left ? "an" : "no", " unexpanded candidate remains");
  }
  c.nontrivial(overflow && rewind);
}

void result_buffer_case(Case &c) {
  size_t cap = 1 + c.raw(c.flip() ? 4 : 20), n = c.raw(60);
  int style = static_cast<int>(c.raw(3));
  alaya::laser::buffer::ResultBuffer buf(cap);
  std::vector<Entry> seen;
  for (uint32_t i = 0; i < n; ++i) {
    float d = draw_dist(c, style);
    buf.insert(i, d);
    seen.push_back({i, d});
    c.check(buf.is_full() == (seen.size() >= cap), "is_full is ", buf.is_full(), " after ", seen.size(), " inserts into ", cap);
    auto want = best_of(seen, cap);
    std::set<uint32_t> ids;
    for (size_t j = 0; j < want.size(); ++j) {
      uint32_t id = buf.ids()[j];
      c.check(id <= i && ids.insert(id).second, "result ", j, " is id ", id, " (unknown or repeated)");
      c.check(seen[id].dist == want[j], "result ", j, " is id ", id, " at ", seen[id].dist, ", expected distance ", want[j]);
    }
  }
  std::vector<uint32_t> out(cap + 1, 0xABCDABCD);
  buf.copy_results(out.data());
  for (size_t j = 0; j < std::min<size_t>(cap, n); ++j) c.check(out[j] == buf.ids()[j], "copied result ", j);
  c.check(out[cap] == 0xABCDABCD, "copy_results wrote past the capacity");
  c.nontrivial(n > cap);
}

// The Vamana frontier orders by (distance, id), drops repeated candidates and reports what it evicts.
void frontier_case(Case &c) {
  using Q = alaya::vamana::NeighborPriorityQueue;
  using N = alaya::vamana::Neighbor;
  size_t cap = 1 + c.raw(c.flip() ? 4 : 20);
  int style = static_cast<int>(c.raw(3));
  Q q(cap);
  if (c.flip()) {
    q = Q();
    q.reserve(cap);
  }
  std::map<std::pair<float, uint32_t>, bool> m;  // -> expanded
  std::unordered_map<uint32_t, float> dist_of;
  size_t ops = 1 + c.raw(80);
  uint32_t next = 0;
  bool overflow = false, dup = false, rewind = false;
  for (size_t k = 0; k < ops; ++k) {
    size_t op = c.weighted({60, 35, 3, 2});
    if (op == 0) {
      uint32_t id;
      if (next > 0 && c.chance(1, 5)) {
        id = static_cast<uint32_t>(c.raw(next - 1));  // the same candidate again, at its (fixed) distance
      } else {
        id = next++;
        dist_of[id] = draw_dist(c, style);
      }
      std::pair<float, uint32_t> key{dist_of[id], id};
      bool present = m.count(key) > 0, full = m.size() == cap;
      bool want_in = !present && (!full || key < m.rbegin()->first);
      auto r = q.insert_with_result(N(id, dist_of[id]));
      c.check(r.inserted == want_in, "insert of ", id, " at ", dist_of[id], " said inserted=", r.inserted);
      c.check(!want_in || r.evicted == full, "insert said evicted=", r.evicted, " with ", m.size(), "/", cap);
      if (want_in) {
        if (full) {
          c.check(r.evicted_id == m.rbegin()->first.second, "evicted ", r.evicted_id, " instead of ", m.rbegin()->first.second);
          m.erase(std::prev(m.end()));
          overflow = true;
        }
        for (auto &p : m) rewind |= p.second;
        m[key] = false;
      }
      dup |= present;
    } else if (op == 1 && q.has_unexpanded_node()) {
      auto n = q.closest_unexpanded();
      auto it = std::find_if(m.begin(), m.end(), [](auto &p) { return !p.second; });
      c.check(it != m.end(), "handed out ", n.id, " although everything was expanded");
      c.check(n.id == it->first.second && n.distance == it->first.first, "handed out ", n.id, " instead of ", it->first.second);
      it->second = true;
    } else if (op == 2) {
      q.clear();
      m.clear();
    } else if (op == 3) {
      size_t bigger = cap + c.raw(5);
      q.reserve(bigger);
      cap = bigger;
    }
    c.check(q.size() == m.size() && q.capacity() == cap, "size ", q.size(), " expected ", m.size());
    size_t i = 0;
    bool open = false;
    for (auto &p : m) {
      c.check(q[i].id == p.first.second && q[i].distance == p.first.first, "position ", i, " holds ", q[i].id, ", expected ", p.first.second);
      c.check(q[i].expanded == p.second, "position ", i, " expanded=", q[i].expanded);
      open |= !p.second;
      ++i;
    }
    c.check(q.has_unexpanded_node() == open, "has_unexpanded_node is ", q.has_unexpanded_node());
  }
  c.label("duplicate", dup);
  c.nontrivial(overflow && rewind);
}

void insert_into_pool_case(Case &c) {
  using N = alaya::Neighbor<uint32_t>;
  size_t k = 1 + c.raw(c.flip() ? 4 : 30), n = c.raw(60);
  int style = static_cast<int>(c.raw(2));
  std::vector<N> a(k + 2);
  std::vector<float> d0;
  for (size_t i = 0; i < k; ++i) d0.push_back(draw_dist(c, style));
  std::sort(d0.begin(), d0.end());
  std::vector<float> dist_of(d0);
  std::vector<std::pair<float, uint32_t>> m;
  for (uint32_t i = 0; i < k; ++i) {
    a[i] = N(i, d0[i], true);
    m.emplace_back(d0[i], i);
  }
  bool dup = false;
  for (size_t j = 0; j < n; ++j) {
    uint32_t id;
    if (c.chance(1, 4)) {
      id = m[c.raw(m.size() - 1)].second;
    } else {
      id = static_cast<uint32_t>(dist_of.size());
      dist_of.push_back(draw_dist(c, style));
    }
    float d = dist_of[id];
    bool present = std::find(m.begin(), m.end(), std::make_pair(d, id)) != m.end();
    // a duplicate of the very last place is appended after the end instead of being recognised only when it is further
    int r = alaya::insert_into_pool<uint32_t>(a.data(), static_cast<int>(k), N(id, d, true));
    if (present) {
      dup = true;
      c.check(r == static_cast<int>(k) + 1 || r == static_cast<int>(k), "a repeated candidate was inserted at ", r);
    } else {
      c.check(r >= 0 && r <= static_cast<int>(k), "a new candidate was rejected (", r, ")");
      m.emplace_back(d, id);
      std::sort(m.begin(), m.end());
      if (m.size() > k) {
        // drop one of the furthest: the one the pool dropped, when several tie
        float worst = m.back().first;
        size_t drop = m.size() - 1;
        for (size_t i = 0; i < m.size(); ++i) {
          if (m[i].first == worst && std::none_of(a.begin(), a.begin() + static_cast<long>(k), [&](const N &x) { return x.id_ == m[i].second; })) drop = i;
        }
        m.erase(m.begin() + static_cast<long>(drop));
      }
      if (r < static_cast<int>(k)) c.check(a[static_cast<size_t>(r)].id_ == id, "the returned position ", r, " holds another candidate");
    }
    std::set<uint32_t> ids;
    for (size_t i = 0; i < k; ++i) {
      c.check(a[i].distance_ == m[i].first, "position ", i, " has distance ", a[i].distance_, ", expected ", m[i].first);
      c.check(ids.insert(a[i].id_).second, "id ", a[i].id_, " appears twice");
      c.check(dist_of[a[i].id_] == a[i].distance_, "id ", a[i].id_, " carries a foreign distance");
    }
  }
  c.nontrivial(n > 3 && dup);
}

// ---- visited sets ----
template <class S, class Id = uint32_t>
struct Ops {
  std::function<void(Id)> set, reset;
  std::function<bool(Id)> get;
  std::function<void()> clear;
};

template <class O>
void set_history(Case &c, O &o, const std::vector<uint64_t> &ids, size_t ops) {
  std::unordered_set<uint64_t> m;
  size_t clears = 0, resets = 0;
  for (size_t k = 0; k < ops; ++k) {
    uint64_t id = ids[c.raw(ids.size() - 1)];
    size_t op = c.weighted({50, 20, o.reset ? 10U : 0U, o.clear ? 6U : 0U});
    if (op == 0) {
      o.set(static_cast<uint32_t>(id));
      m.insert(id);
    } else if (op == 2) {
      o.reset(static_cast<uint32_t>(id));
      m.erase(id);
      ++resets;
    } else if (op == 3) {
      size_t times = c.chance(1, 8) ? 1 + c.raw(300) : 1;  // many clears wrap an 8-bit epoch
      for (size_t t = 0; t < times; ++t) o.clear();
      m.clear();
      ++clears;
    }
    c.check(o.get(static_cast<uint32_t>(id)) == (m.count(id) > 0), "id ", id, " is reported ", o.get(static_cast<uint32_t>(id)) ? "visited" : "unvisited");
  }
  for (uint64_t id : ids) {
    c.check(o.get(static_cast<uint32_t>(id)) == (m.count(id) > 0), "at the end id ", id, " is reported ", o.get(static_cast<uint32_t>(id)) ? "visited" : "unvisited");
  }
  c.nontrivial(m.size() > 1 && clears + resets > 0);
}

std::vector<uint64_t> draw_ids(Case &c, uint64_t bound) {
  std::vector<uint64_t> v;
  size_t n = 2 + c.raw(20);
  int style = static_cast<int>(c.raw(2));
  for (size_t i = 0; i < n; ++i) {
    uint64_t id = c.raw(bound - 1);
    if (style == 1) id = id / 64 * 64 + c.pick({0, 1, 63});          // word boundaries
    if (style == 2 && i > 0) id = v[0] + i * c.pick({8ULL, 64ULL, 512ULL, 1024ULL, 4096ULL});  // hash collisions
    v.push_back(std::min(id, bound - 1));
  }
  return v;
}

void visited_sets_case(Case &c) {
  size_t n = 1 + c.raw(c.flip() ? 130 : 5000);
  auto ids = draw_ids(c, n);
  size_t ops = 5 + c.raw(80);
  Ops<int> o;
  switch (c.raw(8)) {
    case 0: {
      c.note("DynamicBitset ", n);
      alaya::DynamicBitset b(n);
      c.check(b.size() == n, "size");
      o = {[&](uint32_t i) { b.set(i); }, [&](uint32_t i) { b.reset(i); }, [&](uint32_t i) { return b.get(i); }, [&] { b.clear(); }};
      if (c.chance(1, 4)) {
        b.set_all();
        for (auto i : ids) c.check(b.get(i), "set_all left id ", i, " clear");
        b.clear();
      }
      return set_history(c, o, ids, ops);
    }
    case 1: {
      c.note("SparseBitset");
      alaya::SparseBitset b;
      o = {[&](uint32_t i) { b.set(i); }, [&](uint32_t i) { b.reset(i); }, [&](uint32_t i) { return b.get(i); }, nullptr};
      return set_history(c, o, ids, ops);
    }
    case 2: {
      c.note("HierarchicalBitset ", n);
      size_t big = c.flip() ? n : n * 20;
      alaya::HierarchicalBitset b((big + 511) / 512 * 512);
      auto spread = draw_ids(c, big);
      std::set<uint64_t> m;
      c.check(b.find_first_set() == -1, "an empty bitset has a first bit");
      for (auto i : spread) {
        b.set(i);
        m.insert(i);
        c.check(b.find_first_set() == static_cast<int>(*m.begin()), "first set bit is ", b.find_first_set(), ", expected ", *m.begin());
        c.check(b.get(i), "a set bit reads clear");
      }
      for (auto i : ids) c.check(b.get(i) == (m.count(i) > 0), "bit ", i);
      c.nontrivial(m.size() > 1);
      return;
    }
    case 3: {
      c.note("EpochVisitedSet<8 bit> ", n);
      alaya::EpochVisitedSet<uint8_t> b(n);
      o = {[&](uint32_t i) { b.set(i); }, nullptr, [&](uint32_t i) { return b.get(i); }, [&] { b.clear(); }};
      return set_history(c, o, ids, ops);
    }
    case 4: {
      c.note("EpochVisitedSet<32 bit> ", n);
      alaya::EpochVisitedSet<> b;
      b.resize(n);
      c.check(b.size() == n, "size");
      o = {[&](uint32_t i) { b.set(i); }, nullptr, [&](uint32_t i) { return b.get(i); }, [&] { b.clear(); }};
      return set_history(c, o, ids, ops);
    }
    case 5: {
      c.note("HashBasedBooleanSet ", n);
      alaya::HashBasedBooleanSet b(std::max<size_t>(1, n / 10));
      auto wide = c.flip() ? draw_ids(c, 0xFFFFFFFEULL) : ids;
      o = {[&](uint32_t i) { b.set(i); }, nullptr, [&](uint32_t i) { return b.get(i); }, [&] { b.clear(); }};
      if (c.chance(1, 4)) {
        for (auto i : wide) b.set(static_cast<uint32_t>(i));
        alaya::HashBasedBooleanSet copy(b);
        for (auto i : wide) c.check(copy.get(static_cast<uint32_t>(i)), "a copied set lost id ", i);
        b.clear();
      }
      return set_history(c, o, wide, ops);
    }
    case 6: {
      c.note("laser HashBasedBooleanSet ", n);
      alaya::laser::HashBasedBooleanSet b(std::max<size_t>(1, n / 10));
      auto wide = c.flip() ? draw_ids(c, 0xFFFFFFFEULL) : ids;
      o = {[&](uint32_t i) { b.set(i); }, nullptr, [&](uint32_t i) { return b.get(i); }, [&] { b.clear(); }};
      return set_history(c, o, wide, ops);
    }
    case 7: {
      c.note("VisitedBitset ", n);
      alaya::diskann::VisitedBitset b;
      b.resize(n);
      c.check(b.size_bits() == n, "size_bits");
      std::unordered_set<uint32_t> m;
      o = {[&](uint32_t i) {
             if (c.flip()) {
               c.check(b.test_and_set(i) == m.insert(i).second, "test_and_set(", i, ") misreports whether the id was new");
             } else {
               b.set(i);
               m.insert(i);
             }
           },
           nullptr, [&](uint32_t i) { return b.test(i); }, [&] { b.clear(); m.clear(); }};
      set_history(c, o, ids, ops);
      bool threw = false;
      try {
        (void)b.test(static_cast<uint32_t>(n));
      } catch (const std::out_of_range &) {
        threw = true;
      }
      c.check(threw, "an id past the end is accepted");
      return;
    }
    default: {
      c.note("VisitedList ", n);
      alaya::VisitedListPool pool(static_cast<int>(c.raw(2)), static_cast<int>(n));
      alaya::VisitedList *l = pool.get_free_visited_list();
      o = {[&](uint32_t i) { l->mass_[i] = l->cur_v_; }, nullptr, [&](uint32_t i) { return l->mass_[i] == l->cur_v_; },
           [&] {
             if (c.flip()) {
               l->reset();
             } else {
               pool.release_visited_list(l);
               l = pool.get_free_visited_list();
             }
           }};
      set_history(c, o, ids, ops);
      if (c.chance(1, 20)) {  // a 16-bit version number wraps
        for (int t = 0; t < 65540; ++t) {
          l->reset();
          if (t % 4096 == 0 || t > 65530) {
            for (auto i : ids) c.check(l->mass_[i] != l->cur_v_, "after reset ", t, " id ", i, " is still visited");
            l->mass_[ids[0]] = l->cur_v_;
          }
        }
      }
      pool.release_visited_list(l);
      return;
    }
  }
}

// Pools hand out clean, distinct sets however they are acquired and released.
template <class P>
void set_pool_history(Case &c, P &pool, size_t n) {
  struct Held {
    decltype(pool.acquire()) s;
    std::set<uint32_t> m;
  };
  std::vector<Held> held;
  size_t reused = 0;
  for (size_t k = 0; k < 40; ++k) {
    size_t op = c.raw(3);
    if (op == 0 && held.size() < 5) {
      auto *s = pool.acquire();
      for (auto &h : held) c.check(h.s != s, "one set was handed to two users");
      for (uint32_t i = 0; i < n; ++i) c.check(!s->get(i), "an acquired set already has id ", i);
      held.push_back({s, {}});
    } else if (op == 1 && !held.empty()) {
      size_t j = c.raw(held.size() - 1);
      pool.release(held[j].s);
      held.erase(held.begin() + static_cast<long>(j));
      ++reused;
    } else if (!held.empty()) {
      auto &h = held[c.raw(held.size() - 1)];
      auto id = static_cast<uint32_t>(c.raw(n - 1));
      h.s->set(id);
      h.m.insert(id);
    }
    for (auto &h : held) {
      for (uint32_t i = 0; i < n; ++i) c.check(h.s->get(i) == (h.m.count(i) > 0), "id ", i, " of a held set");
    }
  }
  for (auto &h : held) pool.release(h.s);
  c.nontrivial(reused > 1);
}

void set_pools_case(Case &c) {
  size_t n = 1 + c.raw(70);
  switch (c.raw(2)) {
    case 0: {
      alaya::HashSetPool p(c.raw(3), n);
      return set_pool_history(c, p, n);
    }
    case 1: {
      alaya::EpochVisitedPool<uint32_t> p(c.raw(3), n);
      return set_pool_history(c, p, n);
    }
    default: {
      alaya::EpochVisitedPool<uint8_t> p(c.raw(3), n);
      return set_pool_history(c, p, n);
    }
  }
}

// Per-query scratch of the on-disk search: distances, neighbour lists and in-flight reads since the last reset.
void scratch_case(Case &c) {
  alaya::diskann::ThreadData t;
  alaya::diskann::ThreadDataScratchConfig cfg;
  cfg.n_page_slots = 1 + c.raw(6);
  cfg.page_size = 4096;
  cfg.max_slot_id = 1 + c.raw(150);
  cfg.max_degree = static_cast<uint32_t>(1 + c.raw(8));
  cfg.search_list_size = static_cast<uint32_t>(1 + c.raw(10));
  cfg.pq_table_entries = static_cast<uint32_t>(c.raw(2) * 256);
  cfg.query_dim = c.raw(8);
  t.alloc_scratch(cfg);
  t.reset_query(cfg.search_list_size);
  std::map<uint32_t, float> dist;
  std::map<uint32_t, std::vector<uint32_t>> nbrs;
  std::map<uint64_t, uint32_t> inflight;
  size_t resets = 0, exhausted = 0, grown = 0;
  size_t ops = 5 + c.raw(80);
  for (size_t k = 0; k < ops; ++k) {
    auto id = static_cast<uint32_t>(c.raw(cfg.max_slot_id - 1));
    switch (c.weighted({25, 25, 12, 15, 10, 5, 3})) {
      case 0: {
        float d = static_cast<float>(c.raw(100)) - 10;
        t.set_exact_dist(id, d);
        dist[id] = d;
        break;
      }
      case 1: {
        if (nbrs.count(id)) break;
        std::vector<uint32_t> l(c.raw(cfg.max_degree));
        for (auto &x : l) x = static_cast<uint32_t>(c.raw(1000));
        bool threw = false;
        try {
          t.cache_neighbors(id, l.data(), static_cast<uint32_t>(l.size()));
        } catch (const std::runtime_error &) {
          threw = true;
        }
        size_t used = 0;
        for (auto &p : nbrs) used += !p.second.empty();
        bool room = l.empty() || used < cfg.search_list_size;
        c.check(threw == !room, "caching a neighbour list ", threw ? "failed" : "succeeded", " with ", used, "/", cfg.search_list_size, " in use");
        if (room) nbrs[id] = l;
        exhausted += !room;
        break;
      }
      case 2:
        t.release_cached_neighbors(id);
        nbrs.erase(id);
        break;
      case 3: {
        uint64_t slot = c.raw(cfg.n_page_slots - 1);
        if (inflight.count(slot)) break;
        bool in_use = std::any_of(inflight.begin(), inflight.end(), [&](auto &p) { return p.second == id; });
        if (in_use) break;
        t.set_inflight(slot, id, reinterpret_cast<const char *>(uintptr_t{4096} + slot));
        inflight[slot] = id;
        break;
      }
      case 4: {
        alaya::diskann::InFlightSlot out;
        bool got = t.remove_inflight(id, out);
        auto it = std::find_if(inflight.begin(), inflight.end(), [&](auto &p) { return p.second == id; });
        c.check(got == (it != inflight.end()), "remove_inflight(", id, ") returned ", got);
        if (got) {
          c.check(out.id == id && out.page_slot == it->first && out.record == reinterpret_cast<const char *>(uintptr_t{4096} + it->first), "the in-flight slot of ", id, " is mixed up");
          inflight.erase(it);
        }
        break;
      }
      case 5:
        t.reset_query(cfg.search_list_size);
        dist.clear();
        nbrs.clear();
        inflight.clear();
        ++resets;
        break;
      default:
        t.reset_query(cfg.search_list_size);
        dist.clear();
        nbrs.clear();
        inflight.clear();
        cfg.max_slot_id += c.raw(100);
        t.resize_slot_capacity(cfg.max_slot_id);
        ++grown;
        break;
    }
    for (uint32_t i = 0; i < cfg.max_slot_id; ++i) {
      float d = t.exact_dist(i);
      auto it = dist.find(i);
      c.check(alaya::diskann::ThreadData::is_missing_exact(d) == (it == dist.end()), "id ", i, it == dist.end() ? " has a distance nobody stored" : " lost its distance");
      c.check(it == dist.end() || it->second == d, "id ", i, " has distance ", d);
      auto v = t.cached_neighbors(i);
      auto nt = nbrs.find(i);
      size_t want = nt == nbrs.end() ? 0 : nt->second.size();
      c.check(v.size() == want, "id ", i, " has ", v.size(), " cached neighbours, expected ", want);
      for (size_t j = 0; j < want; ++j) c.check(v.data()[j] == nt->second[j], "neighbour ", j, " of id ", i);
    }
    c.check(t.has_inflight() == !inflight.empty(), "has_inflight");
  }
  t.free_scratch();
  c.label("exhausted", exhausted > 0);
  c.label("grown", grown > 0);
  c.nontrivial(resets > 0 && ops > 20);
}
}  // namespace

PBT(linear_pool, "a full pool and an insert after a pop", 4000, 60000) {
  if (c.flip()) {
    linear_pool_case<uint32_t>(c);
  } else {
    linear_pool_case<uint64_t>(c);
  }
}
PBT(rabitq_search_buffer, "a full buffer and an insert after a pop", 4000, 60000) { search_buffer_case(c); }
PBT(laser_search_buffer, "a full buffer and an insert after a pop", 4000, 60000) { laser_buffer_case(c); }
PBT(laser_result_buffer, "more inserts than the capacity", 3000, 40000) { result_buffer_case(c); }
PBT(vamana_frontier, "an eviction and an insert after an expansion", 4000, 60000) { frontier_case(c); }
PBT(nsg_pool, "several inserts with a repeated candidate", 3000, 40000) { insert_into_pool_case(c); }
PBT(visited_sets, "several marked ids and a reset", 6000, 80000) { visited_sets_case(c); }
PBT(visited_pools, "sets released and acquired again", 2000, 30000) { set_pools_case(c); }
PBT(query_scratch, "a reset within a longer history", 1500, 20000) { scratch_case(c); }
