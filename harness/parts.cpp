// Building blocks of the on-disk graph index: page layout, product quantization, deletion bitmap, slot allocator, node
// cache and page cache, each against a plain model, with save/load round trips and damaged files.
#include <cmath>
#include <cstring>
#include <deque>
#include <fstream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include "gen.hpp"
#include "main.hpp"
#include "index/graph/diskann/disk_layout.hpp"
#include "index/graph/diskann/disk_page_cache.hpp"
#include "index/graph/diskann/disk_update_context.hpp"
#include "index/graph/diskann/node_cache.hpp"
#include "index/graph/diskann/pq_table.hpp"
#include "index/graph/diskann/slot_allocator.hpp"
#include "index/graph/diskann/tombstone_bitmap.hpp"
using namespace alaya::diskann;
namespace fs = std::filesystem;

namespace {

std::string slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spit(const fs::path &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), static_cast<std::streamsize>(s.size()));
}
template <class F>
bool throws(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
template <class T>
T get(const std::string &s, size_t at) {
  T v;
  std::memcpy(&v, s.data() + at, sizeof v);
  return v;
}

// ids around word and chunk borders, small ones and, rarely, far ones
uint64_t draw_bit(pbt::Case &c, bool far) {
  switch (c.weighted({6, 3, 2, 1})) {
    case 0: return c.raw(200);
    case 1: return 64 * c.raw(40) + c.raw(2);
    case 2: return std::max<uint64_t>(1, 65536 * c.raw(3)) - 1 + c.raw(2);
    default: return far ? c.raw((1u << 21) - 1) : c.raw(200000);
  }
}

struct BitModel {
  std::set<uint64_t> set;
  uint64_t cap = 0;
  void touch(uint64_t bits) { cap = std::max(cap, (bits + 65535) / 65536 * 65536); }
};

void same_bits(pbt::Case &c, const TombstoneBitmap &b, const BitModel &m, const std::vector<uint64_t> &probes, const char *when) {
  c.check(b.count() == m.set.size(), when, ": count ", b.count(), ", expected ", m.set.size());
  c.check(b.capacity() >= m.cap, when, ": capacity ", b.capacity(), ", expected ", m.cap);
  for (uint64_t p : probes)
    for (uint64_t q : {p, p ^ 1, p + 64, p + 65536})
      c.check(b.is_deleted(q) == (m.set.count(q) != 0), when, ": id ", q, " is ", b.is_deleted(q) ? "deleted" : "live");
}
void same_snapshot(pbt::Case &c, const TombstoneSnapshot &s, const BitModel &m, const std::vector<uint64_t> &probes) {
  for (uint64_t p : probes)
    for (uint64_t q : {p, p ^ 1, p + 64, p + 65536})
      c.check(s.is_deleted(q) == (m.set.count(q) != 0), "snapshot: id ", q, " is ", s.is_deleted(q) ? "deleted" : "live");
}

}  // namespace

PBT(deletion_bitmap, "bits were set, cleared and saved", 500, 20000) {
  auto b = std::make_unique<TombstoneBitmap>();
  BitModel m;
  if (c.flip()) {
    uint64_t n = c.pick<uint64_t>({0, 1, 63, 64, 65535, 65536, 65537, 200000});
    b = std::make_unique<TombstoneBitmap>(n);
    m.touch(n);
    c.note("sized ", n);
  }
  bool far = c.chance(1, 10);
  std::vector<uint64_t> probes;
  TombstoneSnapshot snap;
  std::optional<BitModel> snapped;
  bool cleared = false, saved = false, set = false;
  for (size_t n = c.size(1, 60); n > 0; --n) {
    switch (c.weighted({10, 5, 2, 2, 1, 1})) {
      case 0: {
        uint64_t id = !probes.empty() && c.chance(1, 4) ? c.pick(probes) : draw_bit(c, far);
        b->set(id);
        m.set.insert(id);
        m.touch(id + 1);
        probes.push_back(id);
        c.note("set ", id);
        set = true;
        break;
      }
      case 1: {
        uint64_t id = !probes.empty() && c.chance(3, 4) ? c.pick(probes) : draw_bit(c, far);
        b->clear(id);
        cleared = m.set.erase(id) > 0 || cleared;
        probes.push_back(id);
        c.note("clear ", id);
        break;
      }
      case 2:
        b->snapshot_into(snap);
        snapped = m;
        c.note("snapshot");
        break;
      case 3: {
        saved = true;
        c.note("save");
        auto p = c.sdir() + "/t";
        auto other = std::make_unique<TombstoneBitmap>(c.raw(100000));
        other->set(c.raw(300));
        if (c.flip()) {
          b->save(p);
          other->load(p);
        } else {
          std::stringstream s;
          s << "head";
          b->serialize(s);
          s << "tail";
          s.seekg(4);
          other->deserialize(s);
          std::string rest;
          s >> rest;
          c.check(rest == "tail", "a stored bitmap does not end where the next part begins");
        }
        b = std::move(other);
        break;
      }
      case 4: {
        uint64_t id = (uint64_t{1} << 32) + c.raw(1000);
        c.check(throws([&] { b->set(id); }), "an id beyond 32 bits was accepted");
        b->clear(id);
        c.check(!b->is_deleted(id), "an id beyond 32 bits is deleted");
        break;
      }
      default: {
        uint64_t n2 = c.raw(70000);
        b->reset(n2);
        m = BitModel{};
        m.touch(n2);
        c.note("reset ", n2);
        break;
      }
    }
    same_bits(c, *b, m, {probes.empty() ? 0 : probes.back()}, "after a call");
  }
  same_bits(c, *b, m, probes, "at the end");
  if (snapped) same_snapshot(c, snap, *snapped, probes);
  c.nontrivial(set && cleared && saved);
}

PBT(slot_allocator_history, "slots were freed and reused", 1500, 40000) {
  uint32_t start = static_cast<uint32_t>(c.pick<uint64_t>({0, 1, 5, 64, 1000, 65535, 65536}));
  auto a = std::make_unique<SlotAllocator>(start);
  std::vector<uint32_t> free_ids;                // last in, first out
  std::set<uint32_t> hidden;                     // allocated but not published, or freed
  std::vector<uint32_t> live, fresh;             // published / awaiting publication
  for (uint32_t i = 0; i < std::min<uint32_t>(start, 40); ++i) live.push_back(i);
  uint32_t next = start;
  c.note("start ", start);
  bool reused = false;
  for (size_t n = c.size(1, 60); n > 0; --n) {
    switch (c.weighted({6, 5, 6, 2, 1})) {
      case 0: {
        uint32_t want = free_ids.empty() ? next : free_ids.back();
        if (free_ids.empty()) ++next;
        else free_ids.pop_back(), reused = true;
        uint32_t got = a->alloc();
        c.note("alloc ", got);
        c.check(got == want, "alloc gave ", got, ", expected ", want);
        hidden.insert(got);
        fresh.push_back(got);
        break;
      }
      case 1: {
        if (fresh.empty()) break;
        size_t i = c.raw(fresh.size() - 1);
        a->publish(fresh[i]);
        c.note("publish ", fresh[i]);
        hidden.erase(fresh[i]);
        live.push_back(fresh[i]);
        fresh.erase(fresh.begin() + static_cast<long>(i));
        break;
      }
      case 2: {
        auto &from = !fresh.empty() && c.chance(1, 5) ? fresh : live;
        if (from.empty()) break;
        size_t i = c.raw(from.size() - 1);
        a->free(from[i]);
        c.note("free ", from[i]);
        hidden.insert(from[i]);
        free_ids.push_back(from[i]);
        from.erase(from.begin() + static_cast<long>(i));
        break;
      }
      case 3: {
        auto p = c.sdir() + "/s";
        a->save(p);
        auto b = std::make_unique<SlotAllocator>(static_cast<uint32_t>(c.raw(100)));
        if (c.flip()) b->free(b->alloc());
        b->load(p);
        a = std::move(b);
        c.note("reload");
        break;
      }
      default:
        if (!c.chance(1, 4)) break;
        start = static_cast<uint32_t>(c.raw(80));
        a->reset(start);
        c.note("reset ", start);
        free_ids.clear(), hidden.clear(), live.clear(), fresh.clear();
        for (uint32_t i = 0; i < std::min<uint32_t>(start, 40); ++i) live.push_back(i);
        next = start;
    }
    c.check(a->next_fresh_id() == next, "next id ", a->next_fresh_id(), ", expected ", next);
    c.check(a->free_count() == free_ids.size() && a->free_list() == free_ids, "the free list differs");
    c.check(a->tombstone_count() == hidden.size(), "deleted count ", a->tombstone_count(), ", expected ", hidden.size());
    for (uint32_t i = next > 70 ? next - 70 : 0; i < next + 2; ++i)
      c.check(a->is_deleted(i) == (hidden.count(i) != 0), "slot ", i, " is ", a->is_deleted(i) ? "deleted" : "live");
    for (uint32_t i : hidden) c.check(a->is_deleted(i), "slot ", i, " is live");
    for (uint32_t i : live) c.check(!a->is_deleted(i), "slot ", i, " is deleted");
  }
  c.nontrivial(reused);
}

PBT(allocation_file_damage, "the file was changed", 600, 20000) {
  SlotAllocator a(static_cast<uint32_t>(c.raw(300)));
  for (size_t n = c.raw(30); n > 0; --n) c.flip() || a.next_fresh_id() == 0 ? (void)a.publish(a.alloc()) : a.free(static_cast<uint32_t>(c.raw(a.next_fresh_id() - 1)));
  auto p = c.sdir() + "/f";
  bool bitmap = c.flip();
  if (bitmap)
    a.tombstone().save(p);
  else
    a.save(p);
  auto bytes = slurp(p);
  size_t nfree = a.free_list().size();
  size_t tomb = bitmap ? 0 : 24 + 4 * nfree;  // where the bitmap begins
  bool must_refuse = false;
  size_t kind = c.raw(3);
  if (kind == 0) {
    size_t keep = c.flip() ? bytes.size() - 1 - c.raw(std::min<size_t>(bytes.size() - 1, 64)) : c.raw(bytes.size() - 1);
    bytes.resize(keep);
    must_refuse = true;
    c.note("cut to ", keep);
  } else if (kind == 1) {
    size_t at = bitmap || c.flip() ? tomb : 0;
    bytes[at + c.raw(7)] ^= static_cast<char>(1u << c.raw(7));
    must_refuse = true;
    c.note("another tag at ", at);
  } else if (kind == 2) {  // a count that promises more than there is
    size_t at = bitmap || c.flip() ? tomb + 8 : 16;
    uint64_t v = get<uint64_t>(bytes, at), add;
    switch (c.raw(4)) {
      case 0: add = 1 + c.raw(3); break;
      case 1: add = uint64_t{1} << c.raw(63); break;
      case 2: add = (uint64_t{1} << 58) + c.raw(2000); break;
      case 3: add = ~uint64_t{0} - v - c.raw(70); break;
      default: add = 1 + c.seed(); break;
    }
    if (v + add < v) add = ~uint64_t{0} - v;
    v += add;
    if (at == 16 && v <= nfree + (bytes.size() - tomb - 16) / 4 + 4) {
      must_refuse = false;  // the longer list may swallow part of the bitmap: refused by its tag, checked below
    }
    std::memcpy(bytes.data() + at, &v, 8);
    must_refuse = true;
    c.note("count at ", at, " is now ", v);
  } else {
    size_t n = 1 + c.raw(5);
    for (; n > 0; --n) bytes[c.raw(bytes.size() - 1)] ^= static_cast<char>(1 + c.raw(254));
    c.note("changed bytes");
  }
  spit(p, bytes);
  bool refused;
  if (bitmap) {
    TombstoneBitmap b;
    refused = throws([&] { b.load(p); });
    if (!refused) {
      uint64_t words = get<uint64_t>(bytes, 8), want = 0;
      c.check(16 + words * 8 <= bytes.size(), "more bits than the file holds");
      for (uint64_t w = 0; w < words; ++w) {
        auto v = get<uint64_t>(bytes, 16 + 8 * w);
        want += static_cast<uint64_t>(std::popcount(v));
        for (int i = 0; i < 64; i += 7) c.check(b.is_deleted(w * 64 + static_cast<uint64_t>(i)) == ((v >> i & 1) != 0), "bit ", w * 64 + static_cast<uint64_t>(i), " differs from the file");
      }
      c.check(b.count() == want, "count ", b.count(), ", the file has ", want);
    }
  } else {
    SlotAllocator b;
    refused = throws([&] { b.load(p); });
    if (!refused) {
      c.check(b.next_fresh_id() == get<uint64_t>(bytes, 8), "next id differs from the file");
      c.check(b.free_list().size() == get<uint64_t>(bytes, 16), "free list length differs from the file");
    }
  }
  c.check(refused || !must_refuse, "a damaged file was accepted");
  c.label(refused ? "refused" : "accepted");
  c.nontrivial();
}

// ---- page layout -------------------------------------------------------------------------------------------------
namespace {

struct Nodes {
  uint64_t n, dim;
  uint32_t deg, medoid;
  std::vector<float> vec;
  std::vector<std::vector<uint32_t>> graph;
};

Nodes draw_nodes(pbt::Case &c, uint64_t max_n) {
  Nodes g;
  g.n = c.size(1, max_n);
  g.dim = c.chance(1, 6) ? c.size(300, 2500) : c.size(1, 64);
  g.deg = static_cast<uint32_t>(c.chance(1, 8) ? c.raw(1200) : c.raw(24));
  g.medoid = static_cast<uint32_t>(c.raw(g.n - 1));
  pbt::Rng r(c.seed());
  g.vec.resize(g.n * g.dim);
  for (auto &x : g.vec) x = static_cast<float>(r.gauss());
  g.graph.resize(g.n);
  for (auto &a : g.graph) {
    a.resize(r.below(g.deg + 1));
    for (auto &y : a) y = static_cast<uint32_t>(r.below(g.n));
  }
  c.note(g.n, " nodes, dim ", g.dim, ", degree ", g.deg, ", medoid ", g.medoid);
  return g;
}

// The documented record and file layout, written independently.
std::string ref_record(const Nodes &g, const float *v, const std::vector<uint32_t> &nb) {
  std::string s(g.dim * 4 + 4 + g.deg * 4ull, '\0');
  std::memcpy(s.data(), v, g.dim * 4);
  uint32_t k = static_cast<uint32_t>(nb.size());
  std::memcpy(s.data() + g.dim * 4, &k, 4);
  if (k) std::memcpy(s.data() + g.dim * 4 + 4, nb.data(), 4ull * k);
  return s;
}
std::string ref_file(const Nodes &g) {
  uint64_t len = g.dim * 4 + 4 + g.deg * 4ull, per = std::max<uint64_t>(1, 4096 / len);
  uint64_t page = (per * len + 4095) / 4096 * 4096, pages = (g.n + per - 1) / per;
  std::string s(4096 + page * pages, '\0');
  auto put = [&](size_t at, auto v) { std::memcpy(s.data() + at, &v, sizeof v); };
  put(0, g.n), put(8, g.dim), put(16, g.medoid), put(20, g.deg), put(24, len), put(32, per), put(40, uint64_t{s.size()});
  for (uint64_t i = 0; i < g.n; ++i) {
    auto r = ref_record(g, g.vec.data() + i * g.dim, g.graph[i]);
    std::memcpy(s.data() + 4096 + page * (i / per) + (i % per) * len, r.data(), r.size());
  }
  return s;
}

}  // namespace

PBT(page_layout, "several nodes share a page or a node spans sectors", 2000, 40000) {
  auto g = draw_nodes(c, 60);
  auto p = c.sdir() + "/l";
  WriteDiskLayoutParams prm{g.n, g.dim, g.deg, g.medoid};
  write_disk_layout(p, g.vec.data(), g.graph, prm);
  auto want = ref_file(g), got = slurp(p);
  c.check(got.size() == want.size(), "file of ", got.size(), " bytes, expected ", want.size());
  for (size_t i = 0; i < want.size(); ++i)
    if (want[i] != got[i]) c.fail("byte ", i, " of the file differs from the layout");
  auto h = read_disk_layout_header(p);
  auto geo = DiskLayoutGeometry::compute(g.dim, g.deg);
  c.check(h.num_points == g.n && h.dim == g.dim && h.medoid == g.medoid && h.max_degree == g.deg && h.node_len == geo.node_len &&
              h.nodes_per_sector == geo.nodes_per_sector && h.total_file_size == got.size(),
          "the header changed");
  c.check(geo.total_file_size(g.n) == got.size() && geo.total_file_size(0) == 4096 && geo.num_pages(0) == 0, "file size arithmetic");
  for (uint64_t i = 0; i < g.n; ++i) {
    c.check(geo.file_offset(i) == geo.get_page_offset(i) + geo.offset_to_node(i) && geo.get_page_offset(i) % 4096 == 0, "offsets of node ", i);
    NodeRecordView v{got.data() + geo.file_offset(i), g.dim};
    c.check(std::memcmp(v.coords(), g.vec.data() + i * g.dim, g.dim * 4) == 0, "vector of node ", i);
    c.check(v.n_nbrs() == g.graph[i].size() && std::equal(g.graph[i].begin(), g.graph[i].end(), v.nbrs()), "neighbours of node ", i);
  }
  // inconsistent input is refused
  auto q = c.sdir() + "/bad";
  auto bad = prm;
  auto graph = g.graph;
  const float *vec = g.vec.data();
  switch (c.raw(5)) {
    case 0: bad.medoid = static_cast<uint32_t>(g.n + c.raw(3)); break;
    case 1: bad.num_points = 0; break;
    case 2: bad.dim = 0; break;
    case 3: graph.pop_back(); break;
    case 4: graph[c.raw(g.n - 1)].assign(g.deg + 1 + c.raw(3), 0); break;
    default: vec = nullptr; break;
  }
  c.check(throws([&] { write_disk_layout(q, vec, graph, bad); }), "inconsistent input was written");
  c.nontrivial(geo.nodes_per_sector > 1 ? g.n > 1 : geo.page_size > 4096);
}

PBT(page_layout_damage, "a header field or the file size was changed", 3000, 80000) {
  auto g = draw_nodes(c, 40);
  auto p = c.sdir() + "/l";
  write_disk_layout(p, g.vec.data(), g.graph, {g.n, g.dim, g.deg, g.medoid});
  auto b = slurp(p);
  for (size_t n = 1 + c.raw(1); n > 0; --n) {
    switch (c.weighted({5, 3, 2, 2})) {
      case 0: {
        size_t at = c.raw(47);
        b[at] ^= static_cast<char>(1u << c.raw(7));
        c.note("bit at ", at);
        break;
      }
      case 1: {
        size_t at = 8 * c.raw(5);
        uint64_t v = get<uint64_t>(b, at), d = c.flip() ? c.raw(200) : uint64_t{1} << c.raw(63);
        v = c.flip() ? v + d : v - d;
        std::memcpy(b.data() + at, &v, 8);
        c.note("field at ", at, " is now ", v);
        break;
      }
      case 2: {
        size_t keep = c.flip() ? c.raw(b.size() - 1) : b.size() - 1;
        keep = std::max<size_t>(keep, 48);
        b.resize(keep);
        c.note("cut to ", keep);
        break;
      }
      default:
        b.append(c.flip() ? 1 : 4096, 'x');
        c.note("longer");
    }
  }
  spit(p, b);
  using U = unsigned __int128;
  bool ok = b.size() >= 4096;
  DiskLayoutHeader w;
  if (ok) {
    w.num_points = get<uint64_t>(b, 0), w.dim = get<uint64_t>(b, 8), w.medoid = get<uint32_t>(b, 16), w.max_degree = get<uint32_t>(b, 20);
    U len = U{w.dim} * 4 + 4 + U{w.max_degree} * 4, per = len > 4096 ? 1 : 4096 / len;
    U page = (per * len + 4095) / 4096 * 4096, pages = (U{w.num_points} + per - 1) / per;
    ok = w.num_points > 0 && w.dim > 0 && w.medoid < w.num_points && len == get<uint64_t>(b, 24) && per == get<uint64_t>(b, 32) &&
         4096 + page * pages == get<uint64_t>(b, 40) && get<uint64_t>(b, 40) == b.size();
  }
  DiskLayoutHeader h;
  bool refused = throws([&] { h = read_disk_layout_header(p); });
  c.check(ok || refused, "a header that contradicts its file was accepted: ", h.num_points, " points, dim ", h.dim, ", degree ", h.max_degree, ", file of ", b.size());
  c.check(!ok || !refused, "a consistent header was refused");
  if (!refused) c.check(h.num_points == w.num_points && h.dim == w.dim && h.medoid == w.medoid && h.max_degree == w.max_degree, "the header was misread");
  c.label(refused ? "refused" : "accepted");
  c.nontrivial();
}

// ---- node cache --------------------------------------------------------------------------------------------------
PBT(node_cache_history, "some but not all nodes were cached and one was overridden", 1500, 40000) {
  auto g = draw_nodes(c, 40);
  if (g.dim > 64) g.dim = 1 + g.dim % 64;
  if (g.deg > 30) g.deg %= 30;
  for (auto &a : g.graph)
    if (a.size() > g.deg && !c.chance(1, 30)) a.resize(g.deg);
  double ratio = c.pick({0.0, -1.0, 0.01, 0.1, 0.3, 0.5, 0.99, 1.0, 3.0});
  c.note("ratio ", ratio);
  NodeCache cache;
  if (c.chance(1, 5)) {  // generating again starts over
    cache.generate(g.graph, g.vec.data(), 0, g.n, g.dim, g.deg, 1.0);
    float z[64] = {};
    cache.upsert_node(static_cast<uint32_t>(c.raw(g.n + 3)), z, 0, nullptr);
  }
  cache.generate(g.graph, g.vec.data(), g.medoid, g.n, g.dim, g.deg, ratio);
  // breadth-first from the medoid
  size_t target = ratio <= 0 ? 0 : std::min<size_t>(g.n, static_cast<size_t>(std::ceil(ratio * static_cast<double>(g.n))));
  std::vector<uint32_t> order;
  std::vector<char> seen(g.n, 0);
  std::deque<uint32_t> q{g.medoid};
  seen[g.medoid] = 1;
  while (!q.empty() && order.size() < target) {
    uint32_t u = q.front();
    q.pop_front();
    order.push_back(u);
    for (uint32_t v : g.graph[u])
      if (!seen[v]) seen[v] = 1, q.push_back(v);
  }
  c.check(cache.ids() == order, "the cached ids are not the first ", target, " of the breadth-first order");
  std::map<uint32_t, std::string> base, over;
  auto cut = [&](std::vector<uint32_t> nb) {
    if (nb.size() > g.deg) nb.resize(g.deg);
    return nb;
  };
  for (uint32_t u : order) base[u] = ref_record(g, g.vec.data() + u * g.dim, cut(g.graph[u]));
  c.check(cache.node_len() == g.dim * 4 + 4 + g.deg * 4ull, "record length");
  auto want = [&](uint32_t u) -> const std::string * {
    auto i = over.find(u);
    if (i != over.end()) return &i->second;
    auto j = base.find(u);
    return j == base.end() ? nullptr : &j->second;
  };
  uint32_t span = static_cast<uint32_t>(g.n + 70);
  auto compare = [&](NodeCache &cc, const char *when) {
    size_t total = 0;
    for (uint32_t u = 0; u < span; ++u) {
      auto *w = want(u);
      total += w != nullptr;
      auto hit = cc.lookup_record(u);
      c.check(static_cast<bool>(hit) == (w != nullptr), when, ": node ", u, w ? " is not cached" : " is cached");
      c.check((cc.lookup(u) != nullptr) == (w != nullptr), when, ": lookup and lookup_record differ");
      if (w) c.check(std::memcmp(hit.get(), w->data(), w->size()) == 0, when, ": the record of node ", u, " differs");
    }
    c.check(cc.size() == total, when, ": size ", cc.size(), ", expected ", total);
  };
  compare(cache, "generated");
  pbt::Rng r(c.seed());
  NodeCache::Lookup held;
  std::string held_bytes;
  for (size_t n = c.size(0, 30); n > 0; --n) {
    uint32_t u = static_cast<uint32_t>(c.chance(1, 3) && !order.empty() ? c.pick(order) : c.raw(span - 1));
    std::vector<float> v(g.dim);
    for (auto &x : v) x = static_cast<float>(r.gauss());
    std::vector<uint32_t> nb(c.raw(g.deg));
    for (auto &y : nb) y = static_cast<uint32_t>(r.below(1000));
    switch (c.weighted({5, 5, 2, 2, 1, 2})) {
      case 0:
        cache.upsert_node(u, v.data(), static_cast<uint32_t>(nb.size()), nb.empty() ? nullptr : nb.data());
        over[u] = ref_record(g, v.data(), nb);
        c.note("upsert ", u);
        break;
      case 1: {
        cache.update_neighbors(u, static_cast<uint32_t>(nb.size()), nb.data());
        c.note("neighbours ", u);
        if (auto *w = want(u)) {
          std::memcpy(v.data(), w->data(), g.dim * 4);
          over[u] = ref_record(g, v.data(), nb);
        }
        break;
      }
      case 2:
        cache.drop_disk_backed_overrides();
        c.note("drop");
        for (auto i = over.begin(); i != over.end();) i = base.count(i->first) ? std::next(i) : over.erase(i);
        break;
      case 3: {
        c.note("reload");
        auto d = c.sdir();
        cache.save(d + "/i", d + "/n");
        NodeCache other;
        if (c.flip()) other.generate(g.graph, g.vec.data(), 0, g.n, g.dim, g.deg, 1.0);
        other.load(d + "/i", d + "/n");
        other.configure_geometry(g.dim, g.deg);
        compare(other, "reloaded");
        c.check(throws([&] { other.configure_geometry(g.dim + 1, g.deg); }), "a cache of other records was accepted");
        break;
      }
      case 4: {
        std::vector<uint32_t> many(g.deg + 1, 0);
        c.check(throws([&] { cache.upsert_node(u, v.data(), g.deg + 1, many.data()); }) && throws([&] { cache.upsert_node(u, nullptr, 0, nullptr); }) &&
                    throws([&] { cache.update_neighbors(u, g.deg + 1, many.data()); }) && (g.deg == 0 || throws([&] { cache.upsert_node(u, v.data(), 1, nullptr); })),
                "invalid input was accepted");
        break;
      }
      default:
        if (auto *w = want(u); w && !held) held = cache.lookup_record(u), held_bytes = *w;
    }
  }
  compare(cache, "at the end");
  if (held) c.check(std::memcmp(held.get(), held_bytes.data(), held_bytes.size()) == 0, "a held record changed");
  c.nontrivial(!order.empty() && order.size() < g.n && !over.empty());
}

PBT(node_cache_damage, "a cache file was cut or its counts changed", 800, 20000) {
  auto g = draw_nodes(c, 20);
  if (g.dim > 64) g.dim = 1 + g.dim % 64;
  if (g.deg > 30) g.deg %= 30;
  NodeCache cache;
  cache.generate(g.graph, g.vec.data(), g.medoid, g.n, g.dim, g.deg, 1.0);
  auto d = c.sdir();
  cache.save(d + "/i", d + "/n");
  auto ids = slurp(d + "/i"), nodes = slurp(d + "/n");
  auto &b = c.flip() ? ids : nodes;
  switch (c.raw(2)) {
    case 0: b.resize(c.flip() ? b.size() - 1 : c.raw(b.size() - 1)); break;
    case 1: {
      uint64_t v = get<uint64_t>(b, 0);
      v = c.flip() ? v + 1 + c.raw(5) : v ^ (uint64_t{1} << c.raw(63));
      std::memcpy(b.data(), &v, 8);
      break;
    }
    default: {
      uint64_t v = get<uint64_t>(nodes, 8);
      v = c.flip() ? v + 1 + c.raw(5) : v ^ (uint64_t{1} << c.raw(63));
      std::memcpy(nodes.data() + 8, &v, 8);
    }
  }
  spit(d + "/i", ids), spit(d + "/n", nodes);
  NodeCache other;
  c.check(throws([&] {
            other.load(d + "/i", d + "/n");
            other.configure_geometry(g.dim, g.deg);
          }),
          "a damaged cache was accepted");
  c.nontrivial();
}

// ---- page cache --------------------------------------------------------------------------------------------------
PBT(page_cache_history, "pages were evicted and written back", 2000, 60000) {
  size_t cap = c.raw(c.flip() ? 3 : 9), page = c.pick<size_t>({1, 8, 64, 4096});
  DiskPageCache cache(cap);
  c.check(cache.enabled() == (cap > 0), "enabled");
  c.note("capacity ", cap, ", page size ", page);
  struct P {
    std::string bytes;
    bool dirty;
  };
  std::list<uint64_t> lru;  // most recent first
  std::map<uint64_t, P> in;
  std::map<uint64_t, std::string> disk;
  bool fail_next = false, evicted = false;
  std::vector<uint64_t> flushed;
  auto flush = [&](uint64_t off, const char *bytes) {
    if (fail_next) throw std::runtime_error("disk");
    flushed.push_back(off);
    disk[off].assign(bytes, page);
  };
  auto touch = [&](uint64_t off) { lru.remove(off), lru.push_front(off); };
  pbt::Rng r(c.seed());
  uint64_t pages = 1 + c.raw(12);
  for (size_t n = c.size(1, 80); n > 0; --n) {
    uint64_t off = 4096 * c.raw(pages);
    flushed.clear();
    switch (c.weighted({6, 6, 1})) {
      case 0: {
        std::string out(page, '?');
        bool hit = cache.read(off, out.data(), page);
        c.check(hit == (in.count(off) != 0), "page ", off, hit ? " is cached" : " is not cached");
        if (hit) c.check(out == in[off].bytes, "page ", off, " reads back other bytes"), touch(off);
        c.note("read ", off);
        break;
      }
      case 1: {
        std::string data(page, '\0');
        for (auto &x : data) x = static_cast<char>(r.next());
        bool dirty = c.flip();
        uint64_t victim = lru.empty() ? 0 : lru.back();
        bool evict = cap > 0 && !in.count(off) && in.size() >= cap;
        fail_next = evict && c.chance(1, 6);
        bool threw = throws([&] { cache.write(off, data.data(), page, dirty, flush); });
        c.note("write ", off, dirty ? " dirty" : "", fail_next ? " with a failing disk" : "");
        if (fail_next) {
          c.check(threw == in[victim].dirty, "writing back the evicted page failed: ", threw ? "reported" : "not reported");
          fail_next = false;
          if (threw) break;  // nothing changed
        }
        c.check(!threw, "write failed");
        if (cap == 0) break;
        if (evict) {
          evicted = evicted || in[victim].dirty;
          c.check(flushed == (in[victim].dirty ? std::vector<uint64_t>{victim} : std::vector<uint64_t>{}), "evicting page ", victim, " wrote back ", flushed.size(), " pages");
          if (in[victim].dirty) c.check(disk[victim] == in[victim].bytes, "other bytes written back");
          in.erase(victim), lru.pop_back();
        } else {
          c.check(flushed.empty(), "a page was written back although nothing had to go");
        }
        bool was = in.count(off) && in[off].dirty;
        in[off] = {data, dirty || was};
        touch(off);
        break;
      }
      default: {
        fail_next = c.chance(1, 6);
        bool any = false;
        for (auto &[o, p] : in) any = any || p.dirty;
        bool threw = throws([&] { cache.flush_dirty(flush); });
        c.check(threw == (fail_next && any), "flushing ", threw ? "failed" : "did not report the failure");
        fail_next = false;
        c.note("flush");
        if (threw) break;
        std::set<uint64_t> f(flushed.begin(), flushed.end()), w;
        for (auto &[o, p] : in)
          if (p.dirty) {
            w.insert(o);
            c.check(disk[o] == p.bytes, "other bytes written back");
            p.dirty = false;
          }
        c.check(f == w && f.size() == flushed.size(), "flush wrote ", flushed.size(), " pages, expected ", w.size());
      }
    }
  }
  c.nontrivial(evicted);
}

// ---- product quantization ----------------------------------------------------------------------------------------
namespace {

struct Pq {
  uint64_t dim;
  uint32_t chunks, cd;
  long double chunk_dist(const PQTable &t, const float *v, uint32_t c, uint32_t k) const {
    long double s = 0;
    for (uint32_t d = 0; d < cd; ++d) {
      long double x = static_cast<float>(v[c * cd + d] - t.global_centroid()[c * cd + d]);
      long double y = t.codebook()[(static_cast<size_t>(c) * 256 + k) * cd + d];
      s += (x - y) * (x - y);
    }
    return s;
  }
};

bool close_to(long double a, long double b, long double scale) { return std::fabs(a - b) <= 1e-4L * (std::fabs(b) + scale) + 1e-30L; }

// Every code must name a nearest centroid (up to rounding).
void check_codes(pbt::Case &c, const PQTable &t, const Pq &q, const float *v, const uint8_t *code, const char *what) {
  for (uint32_t k = 0; k < q.chunks; ++k) {
    long double best = INFINITY, got = q.chunk_dist(t, v, k, code[k]);
    for (uint32_t j = 0; j < 256; ++j) best = std::min(best, q.chunk_dist(t, v, k, j));
    c.check(got <= best * (1 + 1e-4L) + 1e-9L, what, ": chunk ", k, " has code ", int{code[k]}, " at ", got, ", the nearest is at ", best);
  }
}

long double quant_error(const PQTable &t, const Pq &q, const float *v, uint64_t n) {
  long double s = 0;
  for (uint64_t i = 0; i < n; ++i)
    for (uint32_t k = 0; k < q.chunks; ++k) s += q.chunk_dist(t, v + i * q.dim, k, t.codes()[i * q.chunks + k]);
  return s;
}

void check_distances(pbt::Case &c, const PQTable &t, const Pq &q, const float *query) {
  std::vector<float> tab(q.chunks * 256), scratch(q.dim);
  t.preprocess_query(query, tab.data(), scratch.data());
  for (uint32_t k = 0; k < q.chunks; ++k)
    for (uint32_t j = 0; j < 256; j += 5) {
      auto want = q.chunk_dist(t, query, k, j);
      c.check(close_to(tab[k * 256 + j], want, 1e-3L), "table entry ", k, ",", j, " is ", tab[k * 256 + j], ", expected ", want);
    }
  uint64_t n = t.num_points();
  std::vector<uint32_t> ids(c.size(1, 250));
  for (auto &i : ids) i = static_cast<uint32_t>(c.raw(n - 1));
  std::vector<float> out(ids.size() + 1, -7.0f);
  t.pq_distance_batch(ids.data(), static_cast<uint32_t>(ids.size()), tab.data(), out.data());
  for (size_t i = 0; i < ids.size(); ++i) {
    long double s = 0;
    for (uint32_t k = 0; k < q.chunks; ++k) s += tab[k * 256 + t.codes()[ids[i] * q.chunks + k]];
    float one = t.pq_distance(ids[i], tab.data());
    c.check(close_to(one, s, 1e-3L), "distance of point ", ids[i], " is ", one, ", the table sums to ", s);
    c.check(close_to(out[i], s, 1e-3L), "batch distance of point ", ids[i], " is ", out[i], ", the table sums to ", s);
  }
  c.check(out.back() == -7.0f, "the batch wrote past its output");
}

void check_symmetric(pbt::Case &c, const PQTable &t, const Pq &q) {
  uint64_t n = t.num_points();
  for (int rep = 0; rep < 6; ++rep) {
    uint64_t a = c.raw(n - 1), b = c.raw(n - 1);
    long double s = 0;
    for (uint32_t k = 0; k < q.chunks; ++k)
      for (uint32_t d = 0; d < q.cd; ++d) {
        auto at = [&](uint64_t i) { return t.codebook()[(static_cast<size_t>(k) * 256 + t.codes()[i * q.chunks + k]) * q.cd + d]; };
        long double e = static_cast<long double>(at(a)) - at(b);
        s += e * e;
      }
    c.check(close_to(t.pq_symmetric_distance(a, b), s, 1e-3L), "distance of codes ", a, " and ", b, " is ", t.pq_symmetric_distance(a, b), ", expected ", s);
    c.check(t.pq_symmetric_distance(a, b) == t.pq_symmetric_distance(t.codes().data() + a * q.chunks, b), "the two forms differ");
  }
  c.check(throws([&] { (void)t.pq_symmetric_distance(n, 0); }) && throws([&] { (void)t.pq_symmetric_distance(uint64_t{0}, n); }), "a point that is not there has a distance");
}

Pq draw_shape(pbt::Case &c) {
  Pq q;
  q.chunks = static_cast<uint32_t>(c.chance(1, 8) ? 60 + c.raw(12) : 1 + c.raw(6));
  q.cd = static_cast<uint32_t>(c.size(1, q.chunks > 10 ? 2 : 9));
  q.dim = static_cast<uint64_t>(q.chunks) * q.cd;
  return q;
}

}  // namespace

PBT(pq_codes_and_distances, "at least two chunks and a grown table", 400, 10000) {
  auto q = draw_shape(c);
  pbt::Rng r(c.seed());
  bool grid = c.flip();
  auto val = [&] { return grid ? static_cast<float>(r.range(-3, 3)) : static_cast<float>(r.gauss()); };
  uint64_t n = c.size(1, 300);
  std::vector<float> data(n * q.dim);
  for (auto &x : data) x = val();
  c.note(n, " points, ", q.chunks, " chunks of ", q.cd);
  PQTable t;
  if (c.flip()) {
    std::vector<float> cen(q.dim), book(static_cast<size_t>(q.chunks) * 256 * q.cd);
    for (auto &x : cen) x = val();
    for (auto &x : book) x = val();
    t = PQTable::from_codebook(q.dim, q.chunks, cen, book);
    c.check(t.global_centroid() == cen && t.codebook() == book, "the given codebook changed");
  } else {
    t.train(data.data(), n, q.dim, q.chunks, static_cast<uint32_t>(c.raw(3)), c.seed(), 1);
    for (uint64_t d = 0; d < q.dim; ++d) {
      long double s = 0, a = 0;
      for (uint64_t i = 0; i < n; ++i) s += data[i * q.dim + d], a += std::fabs(data[i * q.dim + d]);
      c.check(close_to(t.global_centroid()[d], s / n, a / n + 1e-6L), "the centre of coordinate ", d, " is ", t.global_centroid()[d], ", expected ", s / n);
    }
  }
  t.encode(data.data(), n, 1);
  c.check(t.num_points() == n && t.codes().size() == n * q.chunks && t.dim() == q.dim && t.n_chunks() == q.chunks && t.chunk_dim() == q.cd, "shape");
  std::vector<uint8_t> code(q.chunks);
  for (uint64_t i = 0; i < n; i += 1 + n / 12) {
    check_codes(c, t, q, data.data() + i * q.dim, t.codes().data() + i * q.chunks, "encode");
    t.encode_to_code(data.data() + i * q.dim, code.data());
    c.check(std::equal(code.begin(), code.end(), t.codes().begin() + static_cast<long>(i * q.chunks)), "encoding one vector differs from encoding all");
  }
  auto query = std::vector<float>(q.dim);
  for (auto &x : query) x = val();
  check_distances(c, t, q, query.data());
  check_symmetric(c, t, q);
  // overwrite and append
  auto before = t.codes();
  uint64_t at = c.raw(n + 4);
  t.encode_one(query.data(), at);
  c.check(t.num_points() == std::max(n, at + 1) && t.codes().size() == t.num_points() * q.chunks, "the table did not grow to hold point ", at);
  for (size_t i = 0; i < before.size(); ++i) c.check(i / q.chunks == at || t.codes()[i] == before[i], "encoding point ", at, " changed point ", i / q.chunks);
  check_codes(c, t, q, query.data(), t.codes().data() + at * q.chunks, "encode_one");
  check_symmetric(c, t, q);
  // save and load
  auto d = c.sdir();
  t.save(d + "/p", d + "/c");
  PQTable u;
  if (c.flip()) u.train(data.data(), 1, q.dim, 1, 1, 1, 1);
  u.load(d + "/p", d + "/c", t.num_points(), q.dim, q.chunks);
  c.check(u.codes() == t.codes() && u.codebook() == t.codebook() && u.global_centroid() == t.global_centroid(), "loading changed the table");
  check_distances(c, u, q, query.data());
  check_symmetric(c, u, q);
  // files of another shape are refused
  std::string f = c.flip() ? "/p" : "/c";
  auto b = slurp(d + f);
  if (c.flip())
    b.resize(b.size() - 1 - c.raw(std::min<size_t>(b.size() - 1, 40)));
  else
    b.append(1 + c.raw(9), 'x');
  spit(d + f, b);
  c.check(throws([&] { u.load(d + "/p", d + "/c", t.num_points(), q.dim, q.chunks); }), "a file of another length was accepted");
  c.nontrivial(q.chunks > 1 && at >= n);
}

PBT(pq_training, "more training points than centroids", 60, 2000) {
  auto q = draw_shape(c);
  if (q.chunks > 10) q.chunks %= 5, ++q.chunks, q.dim = static_cast<uint64_t>(q.chunks) * q.cd;
  uint64_t n = c.pick<uint64_t>({2, 255, 256, 257, 300, 450, 700});
  pbt::Rng r(c.seed());
  int style = static_cast<int>(c.raw(3));
  std::vector<float> data(n * q.dim);
  std::vector<float> pool(40 * q.dim);
  for (auto &x : pool) x = static_cast<float>(r.gauss() * 3);
  for (uint64_t i = 0; i < n; ++i)
    for (uint64_t d = 0; d < q.dim; ++d)
      data[i * q.dim + d] = style == 0   ? static_cast<float>(r.gauss())
                            : style == 1 ? pool[(i % 40) * q.dim + d]                                    // few distinct points
                            : style == 2 ? static_cast<float>(r.gauss() * 0.01) + pool[(i % 5) * q.dim + d] + 100  // clusters off the origin
                                         : 2.5f;                                                        // one point
  c.note(n, " points, ", q.chunks, " chunks of ", q.cd, ", style ", style);
  uint64_t seed = c.seed();
  uint32_t iters = static_cast<uint32_t>(c.raw(4));
  PQTable a, b, more;
  a.train(data.data(), n, q.dim, q.chunks, iters, seed, 1);
  a.encode(data.data(), n, 1);
  b.train(data.data(), n, q.dim, q.chunks, iters, seed, static_cast<uint32_t>(2 + c.raw(3)));
  b.encode(data.data(), n, static_cast<uint32_t>(2 + c.raw(3)));
  c.check(a.codebook() == b.codebook() && a.global_centroid() == b.global_centroid() && a.codes() == b.codes(), "the result depends on the number of threads");
  long double ea = quant_error(a, q, data.data(), n), var = 0;
  for (uint64_t i = 0; i < n; ++i)
    for (uint64_t d = 0; d < q.dim; ++d) var += std::pow(static_cast<long double>(data[i * q.dim + d]) - a.global_centroid()[d], 2);
  long double norm = 0;
  for (float x : data) norm += static_cast<long double>(x) * x;
  c.check(ea <= var * (1 + 1e-4L) + norm * 1e-9L, "quantization error ", ea, " exceeds the variance ", var);
  if (n <= 256 || style == 1 || style == 3) c.check(ea <= 1e-6L * var + norm * 1e-9L, "error ", ea, " although every distinct point can have its own centroid");
  more.train(data.data(), n, q.dim, q.chunks, iters + 1, seed, 1);
  more.encode(data.data(), n, 1);
  long double em = quant_error(more, q, data.data(), n);
  c.check(em <= ea * (1 + 1e-4L) + norm * 1e-9L, "another iteration raised the error from ", ea, " to ", em);
  // centroids are averages of training points
  for (uint32_t k = 0; k < q.chunks; ++k)
    for (uint32_t d = 0; d < q.cd; ++d) {
      float lo = INFINITY, hi = -INFINITY;
      for (uint64_t i = 0; i < n; ++i) {
        float x = data[i * q.dim + k * q.cd + d] - a.global_centroid()[k * q.cd + d];
        lo = std::min(lo, x), hi = std::max(hi, x);
      }
      float slack = 1e-5f * (std::fabs(lo) + std::fabs(hi)) + 1e-6f;
      for (uint32_t j = 0; j < 256; ++j) {
        float x = a.codebook()[(static_cast<size_t>(k) * 256 + j) * q.cd + d];
        c.check(x >= lo - slack && x <= hi + slack, "centroid ", j, " lies outside the training data");
      }
    }
  PQTable bad;
  c.check(throws([&] { bad.train(nullptr, 1, 4, 1); }) && throws([&] { bad.train(data.data(), 0, q.dim, q.chunks); }) && throws([&] { bad.train(data.data(), n, q.dim, q.chunks + static_cast<uint32_t>(q.dim)); }) &&
              throws([&] { bad.encode(data.data(), n); }) && throws([&] { bad.save(c.sdir() + "/x", c.sdir() + "/y"); }),
          "invalid use was accepted");
  c.nontrivial(n > 256);
}

// ---- saving where nothing can be stored --------------------------------------------------------------------------
PBT(save_to_a_full_disk, "always", 60, 300) {
  const std::string full = "/dev/full";
  Nodes g;
  g.n = 1 + c.raw(4), g.dim = 1 + c.raw(4), g.deg = static_cast<uint32_t>(1 + c.raw(3)), g.medoid = 0;
  g.vec.assign(g.n * g.dim, 1.0f);
  g.graph.assign(g.n, {});
  auto d = c.sdir();
  bool reported = true;
  size_t what = c.raw(6);
  const char *names[] = {"deletion bitmap", "slot allocator", "cache ids", "cache records", "codebook", "codes", "page layout"};
  c.note(names[what]);
  if (what == 0) {
    TombstoneBitmap b(c.raw(100000));
    reported = throws([&] { b.save(full); });
  } else if (what == 1) {
    SlotAllocator a(static_cast<uint32_t>(c.raw(100000)));
    reported = throws([&] { a.save(full); });
  } else if (what == 2 || what == 3) {
    NodeCache n;
    n.generate(g.graph, g.vec.data(), 0, g.n, g.dim, g.deg, 1.0);
    reported = throws([&] { n.save(what == 2 ? full : d + "/i", what == 3 ? full : d + "/n"); });
  } else if (what == 4 || what == 5) {
    PQTable t;
    t.train(g.vec.data(), g.n, g.dim, 1, 1, 1, 1);
    t.encode(g.vec.data(), g.n, 1);
    reported = throws([&] { t.save(what == 4 ? full : d + "/p", what == 5 ? full : d + "/c"); });
  } else {
    reported = throws([&] { write_disk_layout(full, g.vec.data(), g.graph, {g.n, g.dim, g.deg, 0}); });
  }
  c.check(reported, "saving the ", names[what], " on a full disk reported success");
  c.nontrivial();
}

PBT(reconnect_policy, "always", 3000, 50000) {
  DiskUpdateContext u;
  double ratio = c.pick({0.0, 0.1, 0.25, 0.5, 1.0});
  uint64_t total = c.raw(20), dead = c.raw(25), ops = c.raw(10), limit = c.raw(10);
  bool want = total > 0 && ops >= limit && static_cast<double>(dead) / static_cast<double>(total) >= ratio;
  c.check(u.needs_safety_net_reconnect(ratio, dead, total, ops, limit) == want, "ratio ", ratio, " dead ", dead, "/", total, " ops ", ops, "/", limit);
  c.nontrivial();
}
