// Metadata filters: direct evaluation, the executor with and without index, and index lookups, against the documented meaning.
#include "main.hpp"
#include "meta.hpp"
#include "storage/rocksdb_storage.hpp"
#include "utils/metadata_filter_matcher.hpp"
using namespace pbt;
using namespace meta;

namespace {
const std::vector<std::string> kFields = {"cat", "num", "val", "ok", "num_2", "tag"};
}

PBT(direct_evaluation, "random filter trees evaluated on random records against the documented operator meanings; non-trivial: "
    "the filter has a condition on a present field", 100000, 5000000) {
  bool odd = c.flip();
  auto f = gen_filter(c, kFields, odd);
  c.note(show(f));
  for (int i = 0; i < 4; ++i) {
    auto m = gen_metadata(c, kFields, odd);
    bool want = holds(f, m), got = f.evaluate(m);
    c.label(want ? "selected" : "not selected");
    c.nontrivial(!f.is_empty());
    c.check(got == want, "on ", show(m), " the filter ", show(f), " evaluates to ", got);
  }
}

PBT(builder_methods, "filters assembled through the builder methods mean what their names say; non-trivial: always", 20000, 1000000) {
  c.nontrivial();
  bool odd = c.flip();
  auto m = gen_metadata(c, kFields, odd);
  MetadataFilter f;
  bool all = true;
  size_t n = 1 + c.raw(3);
  for (size_t i = 0; i < n; ++i) {
    auto k = gen_condition(c, kFields, odd);
    switch (c.raw(6)) {
      case 0: f.add_eq(k.field, k.value), k.op = FilterOp::EQ; break;
      case 1: f.add_gt(k.field, k.value), k.op = FilterOp::GT; break;
      case 2: f.add_ge(k.field, k.value), k.op = FilterOp::GE; break;
      case 3: f.add_lt(k.field, k.value), k.op = FilterOp::LT; break;
      case 4: f.add_le(k.field, k.value), k.op = FilterOp::LE; break;
      case 5: f.add_in(k.field, k.values), k.op = FilterOp::IN_SET; break;
      default: {
        auto sub = gen_filter(c, kFields, odd, 1);
        all = all && holds(sub, m);
        f.add_sub_filter(sub);
        continue;
      }
    }
    all = all && holds(k, m);
  }
  c.check(f.evaluate(m) == all, "on ", show(m), " ", show(f), " evaluates to ", f.evaluate(m));
}

PBT(executor, "every evaluation path of a filter over a stored collection selects the same ids as the documented meaning; "
    "non-trivial: some ids match and some do not", 600, 20000, Opts{.hang_s = 60}) {
  bool odd = c.flip();
  alaya::RocksDBConfig cfg;
  cfg.db_path_ = (c.dir() / "db").string();
  cfg.block_cache_size_mb_ = 1;
  for (auto &f : kFields) {
    if (c.chance(2, 3)) {
      cfg.indexed_fields_.push_back(f);
    }
  }
  alaya::RocksDBStorage<uint32_t> st(cfg);
  size_t n = 1 + c.raw(c.chance(1, 12) ? 2200 : 25);
  std::vector<std::optional<ScalarData>> rows(n);
  std::vector<ScalarData> init;
  for (size_t i = 0; i < n; ++i) {
    ScalarData d("k" + std::to_string(i), "d", {});
    if (i < 40) {
      d.metadata = gen_metadata(c, kFields, odd);
    } else {
      d.metadata = rows[(i * 7) % 40]->metadata;
    }
    rows[i] = d;
    init.push_back(d);
  }
  c.check(st.batch_insert(0, init.begin(), init.end()), "batch insert");
  for (size_t k = c.raw(std::min<size_t>(n, 8)); k > 0; --k) {
    size_t i = c.raw(n - 1);
    if (c.flip()) {
      st.remove(static_cast<uint32_t>(i));
      rows[i].reset();
    } else if (rows[i]) {
      rows[i]->metadata = gen_metadata(c, kFields, odd);
      c.check(st.update(static_cast<uint32_t>(i), *rows[i]), "update");
    }
  }
  for (size_t i = 0; i < std::min<size_t>(n, 40); ++i) {
    c.note(i, ": ", rows[i] ? show(rows[i]->metadata) : "removed");
  }
  bool some = false, none = false;
  for (size_t q = 0; q < 12; ++q) {
    auto f = gen_filter(c, kFields, odd);
    std::vector<uint32_t> want;
    for (size_t i = 0; i < n; ++i) {
      if (rows[i] && holds(f, rows[i]->metadata)) {
        want.push_back(static_cast<uint32_t>(i));
      }
    }
    some = some || !want.empty();
    none = none || want.size() < n;
    alaya::MetadataFilterExecutor<uint32_t> ex(f, &st, n);
    c.label(ex.has_index_fast_path() ? "indexed" : f.is_empty() ? "empty" : "scanned");
    if (f.is_empty()) {
      // an empty filter matches everything, also ids whose record is gone
      c.check(ex.is_trivially_true(), "an empty filter is not trivially true");
      want.clear();
      for (size_t i = 0; i < n; ++i) {
        want.push_back(static_cast<uint32_t>(i));
      }
    }
    std::vector<uint8_t> in(n, 0);
    for (auto id : want) {
      in[id] = 1;
    }
    for (size_t i = 0; i < n; ++i) {
      c.check(ex.match(static_cast<uint32_t>(i)) == (in[i] != 0), "match(", i, ") is ", !in[i], " for ", show(f),
              ex.has_index_fast_path() ? " through the index" : "");
    }
    auto blocked = ex.build_blocked_bitset();
    size_t count = 0;
    for (size_t i = 0; i < n; ++i) {
      c.check(blocked.blocked_.get(i) == (in[i] == 0), "blocked bit of ", i, " is ", blocked.blocked_.get(i), " for ", show(f));
      count += in[i];
    }
    c.check(blocked.matched_count_ == count, "matched count ", blocked.matched_count_, ", ", count, " ids match ", show(f));
    std::vector<uint32_t> some_ids;
    for (size_t k = c.raw(20); k > 0; --k) {
      some_ids.push_back(static_cast<uint32_t>(c.raw(n - 1)));
    }
    std::vector<uint8_t> hits(3, 7);
    ex.eval_offsets(some_ids, hits);
    c.check(hits.size() == some_ids.size(), "eval_offsets yields ", hits.size(), " answers");
    for (size_t k = 0; k < some_ids.size(); ++k) {
      c.check((hits[k] != 0) == (in[some_ids[k]] != 0), "offset ", k, " (id ", some_ids[k], ") is ", int(hits[k]), " for ", show(f));
    }
    auto part = ex.build_blocked_bitset(some_ids);
    size_t part_count = 0;
    for (auto id : some_ids) {
      part_count += in[id];
    }
    c.check(part.matched_count_ == part_count, "matched count of a subset is ", part.matched_count_, ", expected ", part_count);
    if (ex.has_index_fast_path()) {
      auto ids = ex.indexed_ids();
      c.check(ex.indexed_count() == ids.size(), "indexed_count");
      std::sort(ids.begin(), ids.end());
      c.check(ids == want, "index yields ", show_ids(ids), ", expected ", show_ids(want), " for ", show(f));
    }
    if (!f.is_empty()) {
      size_t limit = c.raw(n + 1);
      auto rs = st.scan_with_filter([&](const ScalarData &d) { return f.evaluate(d.metadata); }, limit);
      size_t expect = limit == 0 ? want.size() : std::min(limit, want.size());
      c.check(rs.size() == expect, "a scan with limit ", limit, " yields ", rs.size(), " of ", want.size(), " matches");
      for (size_t k = 0; k < rs.size(); ++k) {
        c.check(rs[k].first == want[k], "scan result ", k, " is ", rs[k].first, ", expected ", want[k]);
      }
    }
  }
  c.nontrivial(some && none);
}
