// Vector spaces as keyed stores: histories of fit/insert/remove/save/load against a map model.
#include "gen.hpp"
#include "main.hpp"
#include "meta.hpp"
#include "space/rabitq_space.hpp"
#include "space/raw_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
#include "utils/rabitq_utils/rotator.hpp"
using namespace pbt;
using alaya::MetricType;
using alaya::ScalarData;

namespace {
template <class T>
T gen_coord(Case &c, Rng &r, int style) {
  double x = style == 0 ? static_cast<double>(r.range(-8, 8)) : style == 1 ? r.gauss() * 3 : static_cast<double>(r.range(0, 200)) / 8;
  if constexpr (std::is_unsigned_v<T>) {
    return static_cast<T>(std::fabs(std::round(x)));
  }
  return static_cast<T>(x);
}

template <class T>
double exact(MetricType m, const T *a, const T *b, size_t dim, double *mag) {
  double s = 0, g = 0;
  for (size_t i = 0; i < dim; ++i) {
    double x = static_cast<double>(a[i]), y = static_cast<double>(b[i]);
    s += m == MetricType::L2 ? (x - y) * (x - y) : -x * y;
    g += m == MetricType::L2 ? x * x + y * y : std::fabs(x * y);
  }
  *mag = g;
  return s;
}

// What the space stores for a vector: the vector itself, or what its codes stand for.
template <class Space, class T>
struct Stored {
  static std::vector<T> of(Space &, const std::vector<T> &v) { return v; }
  static std::vector<T> read(Space &s, uint64_t id, size_t dim) {
    const T *p = s.get_data_by_id(static_cast<typename Space::IDTypeAlias>(id));
    return {p, p + dim};
  }
};
template <unsigned kMax, class Space, class T>
struct StoredSq {
  std::vector<T> lo, hi;
  unsigned encode(double v, size_t i) const {
    double a = lo[i], b = hi[i];
    if (a == b || v <= a) {
      return 0;
    }
    return v >= b ? kMax : static_cast<unsigned>((v - a) / (b - a) * kMax);
  }
  double decode(unsigned code, size_t i) const { return lo[i] + (static_cast<double>(hi[i]) - lo[i]) * code / kMax; }
};

// ---- raw space
template <class T, class Id>
void raw_history(Case &c) {
  using Space = alaya::RawSpace<T, float, Id>;
  size_t dim = gen::simd_dim(c, 70);
  Id cap = static_cast<Id>(1 + c.raw(24));
  MetricType metric = std::is_floating_point_v<T> ? c.pick({MetricType::L2, MetricType::IP, MetricType::COS}) : c.pick({MetricType::L2, MetricType::IP});
  Rng r(c.seed());
  int style = static_cast<int>(c.raw(2));
  auto make = [&] {
    std::vector<T> v(dim);
    for (auto &x : v) {
      x = gen_coord<T>(c, r, style);
    }
    return v;
  };
  auto sp = std::make_unique<Space>(cap, dim, metric);
  std::map<uint64_t, std::vector<T>> live;
  std::set<uint64_t> gone;
  uint64_t issued = 0, removals = 0, reloads = 0;
  c.note("dim ", dim, " capacity ", cap, " metric ", static_cast<int>(metric));
  c.check(sp->get_capacity() == cap && sp->get_dim() == dim && sp->get_data_size() == dim * sizeof(T) && sp->get_data_num() == 0,
          "a fresh space misreports its shape");
  if (c.flip()) {
    Id n = static_cast<Id>(c.raw(cap));
    gen::Exact<T> block(n * dim + 1);
    for (Id i = 0; i < n; ++i) {
      auto v = make();
      std::copy(v.begin(), v.end(), block.get() + i * dim);
      live[issued++] = v;
    }
    c.note("fit ", n);
    sp->fit(block.get(), n);
  }
  if (c.chance(1, 8)) {
    bool refused = false;
    try {
      Space other(cap, dim, metric);
      std::vector<T> big((cap + 1) * dim);
      other.fit(big.data(), static_cast<Id>(cap + 1));
    } catch (const std::exception &) {
      refused = true;
    }
    c.check(refused, "fitting more than the capacity was accepted");
  }
  auto verify = [&] {
    c.check(sp->get_data_num() == issued, "get_data_num is ", sp->get_data_num(), ", ", issued, " vectors were stored");
    c.check(sp->get_avl_data_num() == live.size(), "get_avl_data_num is ", sp->get_avl_data_num(), ", ", live.size(), " are live");
    auto q = make();
    gen::Exact<T> qe(dim);
    std::copy(q.begin(), q.end(), qe.get());
    auto qc = sp->get_query_computer(qe.get());
    for (auto &[id, v] : live) {
      const T *p = sp->get_data_by_id(static_cast<Id>(id));
      c.check(std::memcmp(p, v.data(), dim * sizeof(T)) == 0, "vector ", id, " changed");
      double mag, want = exact(metric, q.data(), v.data(), dim, &mag), got = qc(static_cast<Id>(id));
      c.check(std::fabs(got - want) <= 1e-5 * mag + 1e-6, "query distance to ", id, " is ", got, ", expected ", want);
    }
    for (auto id : gone) {
      c.check(qc(static_cast<Id>(id)) == std::numeric_limits<float>::max(), "removed id ", id, " has distance ", qc(static_cast<Id>(id)));
    }
    if (!live.empty()) {
      auto a = std::next(live.begin(), static_cast<long>(c.raw(live.size() - 1)));
      auto b = std::next(live.begin(), static_cast<long>(c.raw(live.size() - 1)));
      double mag, want = exact(metric, a->second.data(), b->second.data(), dim, &mag);
      double got = sp->get_distance(static_cast<Id>(a->first), static_cast<Id>(b->first));
      c.check(std::fabs(got - want) <= 1e-5 * mag + 1e-6, "distance ", a->first, "-", b->first, " is ", got, ", expected ", want);
      auto by_id = sp->get_query_computer(static_cast<Id>(a->first));
      got = by_id(static_cast<Id>(b->first));
      c.check(std::fabs(got - want) <= 1e-5 * mag + 1e-6, "computer by id ", a->first, "-", b->first, " is ", got, ", expected ", want);
    }
  };
  for (size_t st = c.raw(30); st > 0; --st) {
    switch (c.weighted({6, 4, 1})) {
      case 0: {
        auto v = make();
        gen::Exact<T> e(dim);
        std::copy(v.begin(), v.end(), e.get());
        Id id = sp->insert(e.get());
        c.note("insert -> ", id);
        if (issued == cap) {
          c.label("full");
          c.check(id == static_cast<Id>(-1), "insert into a full space returned ", id);
        } else {
          c.check(id == issued, "insert returned ", id, ", expected the next id ", issued);
          live[issued++] = v;
        }
        break;
      }
      case 1: {
        if (issued == 0) {
          break;
        }
        uint64_t id = c.raw(issued - 1);
        bool had = live.erase(id) > 0;
        Id got = sp->remove(static_cast<Id>(id));
        c.note("remove ", id, " -> ", got);
        c.check(got == (had ? static_cast<Id>(id) : static_cast<Id>(-1)), "remove ", id, " returned ", got);
        if (!had) {
          c.label("removed twice");
        }
        gone.insert(id);
        ++removals;
        break;
      }
      default: {
        c.note("save and load");
        auto path = (c.dir() / "space.bin").string();
        sp->save(path);
        auto fresh = c.flip() ? std::make_unique<Space>() : std::make_unique<Space>(static_cast<Id>(3), 5, MetricType::L2);
        fresh->load(path);
        fresh->set_metric_function();
        sp = std::move(fresh);
        c.check(sp->get_capacity() == cap && sp->get_dim() == dim && sp->get_data_size() == dim * sizeof(T), "reloaded shape differs");
        ++reloads;
        break;
      }
    }
    verify();
  }
  verify();
  c.nontrivial(removals > 0 && issued > 2);
  if (reloads) {
    c.label("reloaded");
  }
}

// ---- scalar-quantized spaces
template <class T, class Id, unsigned kMax, class Space>
void sq_history(Case &c) {
  size_t dim = gen::simd_dim(c, 50);
  Id cap = static_cast<Id>(2 + c.raw(20));
  MetricType metric = c.pick({MetricType::L2, MetricType::IP, MetricType::COS});
  Rng r(c.seed());
  int style = static_cast<int>(c.raw(2));
  auto make = [&] {
    std::vector<T> v(dim);
    for (auto &x : v) {
      x = gen_coord<T>(c, r, style);
    }
    return v;
  };
  auto sp = std::make_unique<Space>(cap, dim, metric);
  struct Row {
    std::vector<uint8_t> code;
  };
  const size_t bytes = kMax == 15 ? (dim + 1) / 2 : dim;
  std::map<uint64_t, Row> live;
  std::set<uint64_t> gone;
  uint64_t issued = 0;
  Id n = static_cast<Id>(1 + c.raw(cap - 1));
  gen::Exact<T> block(n * dim);
  for (Id i = 0; i < n; ++i) {
    auto v = make();
    std::copy(v.begin(), v.end(), block.get() + i * dim);
  }
  c.note("dim ", dim, " capacity ", cap, " metric ", static_cast<int>(metric), " fit ", n);
  sp->fit(block.get(), n);
  // the space's own quantizer encodes (P02 checks it), the model only remembers what was stored where
  std::vector<T> lo(dim, std::numeric_limits<T>::max()), hi(dim, std::numeric_limits<T>::lowest());
  for (Id i = 0; i < n; ++i) {
    for (size_t j = 0; j < dim; ++j) {
      lo[j] = std::min(lo[j], block.get()[i * dim + j]);
      hi[j] = std::max(hi[j], block.get()[i * dim + j]);
    }
  }
  auto quantizer = sp->get_quantizer();
  for (size_t j = 0; j < dim; ++j) {
    c.check(quantizer.get_min()[j] == lo[j] && quantizer.get_max()[j] == hi[j], "trained range of dimension ", j, " is off");
  }
  auto encode = [&](const T *v) {
    Row row;
    row.code.assign(bytes, 0);
    quantizer.encode(v, row.code.data());
    return row;
  };
  for (Id i = 0; i < n; ++i) {
    live[issued++] = encode(block.get() + i * dim);
  }
  auto value = [&](const Row &row, size_t j) {
    unsigned code = kMax == 15 ? (j % 2 ? row.code[j / 2] & 15U : row.code[j / 2] >> 4) : row.code[j];
    return static_cast<double>(lo[j]) + (static_cast<double>(hi[j]) - lo[j]) * code / kMax;
  };
  auto dist = [&](const Row &a, const Row &b, double *mag) {
    double s = 0, g = 0;
    for (size_t j = 0; j < dim; ++j) {
      double x = value(a, j), y = value(b, j);
      s += metric == MetricType::L2 ? (x - y) * (x - y) : -x * y;
      g += std::fabs(x) * std::fabs(x) + y * y + std::fabs(static_cast<double>(lo[j]) * hi[j]) + lo[j] * lo[j] + hi[j] * hi[j];
    }
    *mag = g;
    return s;
  };
  auto verify = [&] {
    c.check(sp->get_data_num() == issued, "get_data_num is ", sp->get_data_num(), ", ", issued, " vectors were stored");
    if constexpr (requires { sp->get_avl_data_num(); }) {
      c.check(sp->get_avl_data_num() == live.size(), "get_avl_data_num is ", sp->get_avl_data_num(), ", ", live.size(), " are live");
    }
    auto q = make();
    auto qrow = encode(q.data());
    auto qc = sp->get_query_computer(static_cast<const T *>(q.data()));
    for (auto &[id, row] : live) {
      const uint8_t *p = sp->get_data_by_id(static_cast<Id>(id));
      c.check(std::memcmp(p, row.code.data(), bytes) == 0, "code of ", id, " changed");
      double mag, want = dist(qrow, row, &mag), got = qc(static_cast<Id>(id));
      c.check(std::fabs(got - want) <= 2e-5 * mag + 1e-6, "query distance to ", id, " is ", got, ", expected ", want);
    }
    if (!live.empty()) {
      auto a = std::next(live.begin(), static_cast<long>(c.raw(live.size() - 1)));
      auto b = std::next(live.begin(), static_cast<long>(c.raw(live.size() - 1)));
      double mag, want = dist(a->second, b->second, &mag);
      double got = sp->get_distance(static_cast<Id>(a->first), static_cast<Id>(b->first));
      c.check(std::fabs(got - want) <= 2e-5 * mag + 1e-6, "distance ", a->first, "-", b->first, " is ", got, ", expected ", want);
      auto by_id = sp->get_query_computer(static_cast<Id>(a->first));
      got = by_id(static_cast<Id>(b->first));
      c.check(std::fabs(got - want) <= 2e-5 * mag + 1e-6, "computer by id ", a->first, "-", b->first, " is ", got, ", expected ", want);
    }
  };
  size_t removals = 0;
  for (size_t st = c.raw(25); st > 0; --st) {
    switch (c.weighted({6, 4, 1})) {
      case 0: {
        auto v = make();
        if (c.chance(1, 4)) {
          v[c.raw(dim - 1)] = static_cast<T>(1e4);  // outside the trained range
        }
        auto row = encode(v.data());
        Id id = sp->insert(v.data());
        c.note("insert -> ", id);
        if (issued == cap) {
          c.label("full");
          c.check(id == static_cast<Id>(-1), "insert into a full space returned ", id);
        } else {
          c.check(id == issued, "insert returned ", id, ", expected the next id ", issued);
          live[issued++] = row;
        }
        break;
      }
      case 1: {
        uint64_t id = c.raw(issued - 1);
        bool had = live.erase(id) > 0;
        Id got = sp->remove(static_cast<Id>(id));
        c.note("remove ", id, " -> ", got);
        c.check(got == (had ? static_cast<Id>(id) : static_cast<Id>(-1)), "remove ", id, " returned ", got);
        ++removals;
        break;
      }
      default: {
        c.note("save and load");
        c.label("reloaded");
        auto path = (c.dir() / "space.bin").string();
        sp->save(path);
        sp = c.flip() ? std::make_unique<Space>() : std::make_unique<Space>(static_cast<Id>(3), 5, MetricType::L2);
        sp->load(path);
        sp->set_metric_function();
        c.check(sp->get_dim() == dim && sp->get_capacity() == cap, "reloaded shape differs");
        auto q2 = sp->get_quantizer();
        for (size_t j = 0; j < dim; ++j) {
          c.check(q2.get_min()[j] == lo[j] && q2.get_max()[j] == hi[j], "reloaded range of dimension ", j, " differs");
        }
        break;
      }
    }
    verify();
  }
  verify();
  c.nontrivial(removals > 0 && issued > 2);
}

// ---- spaces that keep a record with every vector
template <class Space>
void scalar_history(Case &c) {
  static const std::vector<std::string> fields = {"cat", "num"};
  size_t dim = 1 + c.raw(12);
  const uint32_t cap = static_cast<uint32_t>(2 + c.raw(10));
  Rng r(c.seed());
  alaya::RocksDBConfig cfg;
  cfg.db_path_ = (c.dir() / "db").string();
  cfg.block_cache_size_mb_ = 1 + c.raw(3);
  cfg.enable_compression_ = false;
  if (c.flip()) {
    cfg.indexed_fields_ = {"cat", "num"};
  }
  auto sp = std::make_unique<Space>(cap, dim, MetricType::L2, cfg);
  std::map<uint32_t, ScalarData> live;
  size_t uniq = 0;
  auto rec = [&] { return ScalarData("it" + std::to_string(uniq++), meta::gen_string(c, true), meta::gen_metadata(c, fields, true)); };
  auto vec = [&] {
    std::vector<float> v(dim);
    gen::fill(r, gen::kSmallInt, v.data(), dim);
    return v;
  };
  uint32_t n = static_cast<uint32_t>(1 + c.raw(cap - 1)), issued = 0;
  std::vector<float> block;
  std::vector<ScalarData> recs;
  for (uint32_t i = 0; i < n; ++i) {
    auto v = vec();
    block.insert(block.end(), v.begin(), v.end());
    recs.push_back(rec());
    live[issued++] = recs.back();
  }
  sp->fit(block.data(), n, recs.data());
  size_t removals = 0;
  auto verify = [&] {
    c.check(sp->get_data_num() == issued, "get_data_num is ", sp->get_data_num(), ", ", issued, " vectors were stored");
    c.check(sp->get_scalar_storage()->count() == live.size(), "the store counts ", sp->get_scalar_storage()->count(), " records, ",
            live.size(), " vectors are live");
    for (auto &[id, d] : live) {
      c.check(meta::same(sp->get_scalar_data(id), d), "record of ", id, " is ", meta::show(sp->get_scalar_data(id)), ", expected ", meta::show(d));
      auto [got, e] = sp->get_scalar_data(d.item_id);
      c.check(got == id && meta::same(e, d), "item ", d.item_id, " resolves to id ", got, ", expected ", id);
    }
    auto f = meta::gen_filter(c, fields, true);
    size_t limit = 1 + c.raw(cap), k = 0;
    auto rs = sp->get_scalar_data(f, limit);
    for (auto &[id, d] : live) {
      if (meta::holds(f, d.metadata) && k < limit) {
        c.check(k < rs.size() && rs[k].first == id, "filtered records lack ", id, " for ", meta::show(f));
        ++k;
      }
    }
    c.check(rs.size() == k, "filtered records yield ", rs.size(), ", expected ", k);
  };
  for (size_t st = c.raw(14); st > 0; --st) {
    switch (c.weighted({5, 2, 2, 1})) {
      case 0: {
        auto v = vec();
        auto d = rec();
        bool dup = !live.empty() && c.chance(1, 6);
        if (dup) {
          d.item_id = live.begin()->second.item_id;
        }
        c.note("insert ", meta::show(d));
        uint32_t id = UINT32_MAX;
        bool threw = false;
        try {
          id = sp->insert(v.data(), &d);
        } catch (const std::exception &) {
          threw = true;
        }
        if (issued == cap) {
          c.label("full");
          c.check(threw || id == UINT32_MAX, "insert into a full space returned ", id);
        } else if (dup) {
          // refused by the store; whether the slot is spent is not specified, but the count must say so
          c.check(threw, "a second record under item ", d.item_id, " was accepted");
          c.label("duplicate item");
          for (auto &[lid, ld] : live) {
            c.check(meta::same(sp->get_scalar_data(lid), ld), "record of ", lid, " was disturbed");
          }
          auto now = static_cast<uint32_t>(sp->get_data_num());
          c.check(now == issued || now == issued + 1, "after a refused insert the space counts ", now, " vectors instead of ", issued);
          issued = now;
        } else {
          c.check(id == issued, "insert returned ", id, ", expected ", issued);
          live[issued++] = d;
        }
        break;
      }
      case 1: {
        uint32_t id = static_cast<uint32_t>(c.raw(issued - 1));
        bool had = live.erase(id) > 0;
        uint32_t got = sp->remove(id);
        c.note("remove ", id);
        c.check(got == (had ? id : UINT32_MAX), "remove ", id, " returned ", got);
        ++removals;
        break;
      }
      case 2: {
        if (live.empty()) {
          break;
        }
        auto it = std::next(live.begin(), static_cast<long>(c.raw(live.size() - 1)));
        c.note("remove item ", it->second.item_id);
        std::string item = it->second.item_id;
        uint32_t got = sp->remove(item);
        c.check(got == it->first, "removing item ", item, " reports id ", got, ", expected ", it->first);
        live.erase(it);
        bool threw = false;
        try {
          sp->remove(item);
        } catch (const std::exception &) {
          threw = true;
        }
        c.check(threw, "removing item ", item, " again was accepted");
        ++removals;
        break;
      }
      default: {
        c.note("save, close and load");
        c.label("reloaded");
        auto path = (c.dir() / "space.bin").string();
        sp->save(path);
        sp->close_db();
        sp = std::make_unique<Space>();
        sp->load(path);
        sp->set_metric_function();
        auto &got = sp->get_scalar_storage()->config();
        c.check(got.db_path_ == cfg.db_path_ && got.indexed_fields_ == cfg.indexed_fields_ &&
                    got.write_buffer_size_ == cfg.write_buffer_size_ && got.max_write_buffer_number_ == cfg.max_write_buffer_number_ &&
                    got.target_file_size_base_ == cfg.target_file_size_base_ && got.block_cache_size_mb_ == cfg.block_cache_size_mb_ &&
                    got.enable_compression_ == cfg.enable_compression_,
                "the reloaded store configuration differs");
        break;
      }
    }
    verify();
  }
  verify();
  c.nontrivial(removals > 0);
}
}  // namespace

PBT(raw_space, "histories of fit/insert/remove/save/load on raw spaces of float, double and integer vectors; non-trivial: a removal "
    "and more than two vectors", 6000, 200000) {
  switch (c.raw(4)) {
    case 0: raw_history<float, uint32_t>(c); break;
    case 1: raw_history<float, uint64_t>(c); break;
    case 2: raw_history<double, uint32_t>(c); break;
    case 3: raw_history<uint32_t, uint32_t>(c); break;
    default: raw_history<uint64_t, uint64_t>(c); break;
  }
}

PBT(quantized_spaces, "histories of fit/insert/remove/save/load on 8-bit and 4-bit spaces; non-trivial: a removal and more than two "
    "vectors", 4000, 150000) {
  switch (c.raw(2)) {
    case 0: sq_history<float, uint32_t, 255, alaya::SQ8Space<float, float, uint32_t>>(c); break;
    case 1: sq_history<float, uint32_t, 15, alaya::SQ4Space<float, float, uint32_t>>(c); break;
    default: sq_history<float, uint64_t, 255, alaya::SQ8Space<float, float, uint64_t>>(c); break;
  }
}

PBT(spaces_with_records, "histories on spaces that keep a record with every vector; non-trivial: a removal", 400, 10000, Opts{.hang_s = 60}) {
  switch (c.raw(2)) {
    case 0: scalar_history<alaya::RawSpace<float, float, uint32_t, alaya::SequentialStorage<float, uint32_t>, ScalarData>>(c); break;
    case 1: scalar_history<alaya::SQ8Space<float, float, uint32_t, alaya::SequentialStorage<uint8_t, uint32_t>, ScalarData>>(c); break;
    default: scalar_history<alaya::SQ4Space<float, float, uint32_t, alaya::SequentialStorage<uint8_t, uint32_t>, ScalarData>>(c); break;
  }
}

PBT(binary_space, "a binary-quantized space keeps its vectors, records and neighbour codes through save/load and answers the same "
    "estimates; non-trivial: some node has neighbours", 600, 15000, Opts{.hang_s = 60}) {
  using Plain = alaya::RaBitQSpace<float, float, uint32_t>;
  size_t dim = 64 + c.raw(130);
  if (c.chance(1, 3)) {
    dim = c.pick({64, 128, 192, 256});
  }
  uint32_t n = static_cast<uint32_t>(33 + c.raw(20)), cap = n + static_cast<uint32_t>(c.raw(5));
  MetricType metric = c.pick({MetricType::L2, MetricType::IP, MetricType::COS});
  auto rot = c.pick({alaya::RotatorType::FhtKacRotator, alaya::RotatorType::MatrixRotator});
  Rng r(c.seed());
  std::vector<float> data(n * dim);
  gen::fill(r, gen::kGauss, data.data(), data.size());
  c.note("dim ", dim, " rows ", n, " metric ", static_cast<int>(metric));
  Plain sp(cap, dim, metric, alaya::RocksDBConfig::default_config(), rot);
  sp.fit(data.data(), n);
  size_t linked = 0;
  std::map<uint32_t, std::vector<uint32_t>> links;
  for (size_t k = c.raw(6); k > 0; --k) {
    uint32_t u = static_cast<uint32_t>(c.raw(n - 1));
    std::vector<alaya::Neighbor<uint32_t, float>> nb;
    for (size_t i = 0; i < Plain::kDegreeBound; ++i) {
      nb.emplace_back(static_cast<uint32_t>((u + 1 + i) % n), 0.F);
    }
    for (size_t i = nb.size() - 1; i > 0; --i) {
      std::swap(nb[i], nb[r.below(i + 1)]);
    }
    sp.update_nei(u, nb);
    links[u].clear();
    for (auto &x : nb) {
      links[u].push_back(x.id_);
    }
    ++linked;
  }
  c.nontrivial(linked > 0);
  sp.set_ep(static_cast<uint32_t>(c.raw(n - 1)));
  auto verify = [&](Plain &s) {
    c.check(s.get_data_num() == n && s.get_dim() == dim && s.get_capacity() == cap, "the shape is misreported");
    for (uint32_t i = 0; i < n; ++i) {
      c.check(std::memcmp(s.get_data_by_id(i), &data[i * dim], dim * 4) == 0, "vector ", i, " changed");
    }
    for (auto &[u, l] : links) {
      c.check(std::memcmp(s.get_edges(u), l.data(), l.size() * 4) == 0, "neighbours of ", u, " changed");
    }
    for (int k = 0; k < 8; ++k) {
      uint32_t a = static_cast<uint32_t>(r.below(n)), b = static_cast<uint32_t>(r.below(n));
      double mag, want = exact(metric, &data[a * dim], &data[b * dim], dim, &mag), got = s.get_distance(a, b);
      c.check(std::fabs(got - want) <= 1e-5 * mag + 1e-6, "distance ", a, "-", b, " is ", got, ", expected ", want);
    }
  };
  verify(sp);
  auto path = (c.dir() / "space.bin").string();
  sp.save(path);
  Plain back;
  back.load(path);
  verify(back);
  c.check(back.get_ep() == sp.get_ep(), "the entry point changed");
  std::vector<float> q(dim);
  gen::fill(r, gen::kGauss, q.data(), dim);
  auto qa = sp.get_query_computer(q.data()), qb = back.get_query_computer(q.data());
  for (auto &[u, l] : links) {
    qa.load_centroid(u);
    qb.load_centroid(u);
    c.check(qa.get_exact_qr_c_dist() == qb.get_exact_qr_c_dist(), "distance to node ", u, " changed after reload");
    for (size_t i = 0; i < l.size(); ++i) {
      float x = qa(i), y = qb(i);
      c.check(std::fabs(x - y) <= 1e-4 * (std::fabs(x) + std::fabs(y) + 1), "estimate ", i, " at node ", u, " was ", x, ", is ", y, " after reload");
    }
  }
}
