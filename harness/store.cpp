// The metadata store: records, item keys, secondary indexes, reopening; record serialisation and index key encoding.
#include "main.hpp"
#include "meta.hpp"
#include "rocksdb/db.h"
#include "storage/rocksdb_storage.hpp"
#include "utils/index_encoding.hpp"
using namespace pbt;
using meta::show;
using alaya::MetadataMap;
using alaya::MetadataValue;
using alaya::ScalarData;
namespace ie = alaya::index_encoding;

namespace {
ScalarData gen_record(Case &c, bool odd) {
  static const std::vector<std::string> fields = {"cat", "num", "val", "ok", "num_2", "tag"};
  ScalarData d;
  d.item_id = c.chance(1, 6) ? "" : "k" + std::to_string(c.raw(14));
  if (odd && c.chance(1, 8)) {
    d.item_id = meta::gen_string(c, true);
  }
  d.document = meta::gen_string(c, odd);
  d.metadata = meta::gen_metadata(c, fields, odd);
  return d;
}

// decided order of the index: what a range scan must see
bool in_range(const MetadataValue &v, const MetadataValue &lo, const MetadataValue &hi) {
  if (v.index() != lo.index()) {
    return false;
  }
  return v.index() == 0 ? std::get<0>(lo) <= std::get<0>(v) && std::get<0>(v) <= std::get<0>(hi)
                        : std::get<1>(lo) <= std::get<1>(v) && std::get<1>(v) <= std::get<1>(hi);
}

template <class Id>
struct Model {
  std::map<Id, ScalarData> rows;
  std::optional<Id> owner(const std::string &item) const {
    for (auto &[id, d] : rows) {
      if (!item.empty() && d.item_id == item) {
        return id;
      }
    }
    return std::nullopt;
  }
};

template <class Id>
void compare(Case &c, const alaya::RocksDBStorage<Id> &s, const Model<Id> &m, const std::vector<std::string> &indexed,
             Id max_id, bool with_count) {
  if (with_count) {
    c.check(s.count() == m.rows.size(), "count() is ", s.count(), ", ", m.rows.size(), " records are stored");
  }
  std::vector<Id> ids;
  for (Id id = 0; id <= max_id; ++id) {
    ids.push_back(id);
    auto it = m.rows.find(id);
    c.check(s.is_valid(id) == (it != m.rows.end()), "is_valid(", id, ") is ", s.is_valid(id));
    std::string raw;
    bool got = s.get_raw_value(id, raw);
    c.check(got == (it != m.rows.end()), "get_raw_value(", id, ") is ", got);
    if (got) {
      ScalarData d = s[id];
      c.check(meta::same(d, it->second), "record ", id, " reads ", show(d), ", last written ", show(it->second));
      c.check(meta::same(ScalarData::deserialize(raw.data(), raw.size()), it->second), "raw record ", id, " differs");
    }
  }
  auto back = ids;
  back.push_back(static_cast<Id>(max_id + 5));
  std::reverse(back.begin(), back.end());
  back.push_back(0);
  auto batch = s.batch_get(back);
  auto items = s.batch_get_item_id_only(back);
  auto raws = s.batch_get_raw_values(back);
  c.check(batch.size() == back.size() && items.size() == back.size() && raws.size() == back.size(), "batch sizes differ");
  for (size_t i = 0; i < back.size(); ++i) {
    auto it = m.rows.find(back[i]);
    ScalarData want = it == m.rows.end() ? ScalarData{} : it->second;
    c.check(meta::same(batch[i], want), "batch_get of ", back[i], " reads ", show(batch[i]), ", expected ", show(want));
    c.check(items[i] == want.item_id, "batch item id of ", back[i], " is ", show(items[i]), ", expected ", show(want.item_id));
    c.check(raws[i].empty() == (it == m.rows.end()), "batch raw value presence of ", back[i]);
  }
  std::set<std::string> keys = {"nope", "k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "k10", "k11", "k12", "k13"};
  for (auto &[id, d] : m.rows) {
    keys.insert(d.item_id);
  }
  keys.erase("");
  for (auto &k : keys) {
    auto got = s.find_by_item_id(k), want = m.owner(k);
    c.check(got == want, "find_by_item_id(", show(k), ") is ", got ? std::to_string(*got) : "nothing", ", expected ",
            want ? std::to_string(*want) : "nothing");
    c.check(s.item_id_available(k) == !want.has_value(), "item_id_available(", show(k), ")");
  }
  // full scans
  auto all = s.scan_with_filter([](const ScalarData &) { return true; });
  c.check(all.size() == m.rows.size(), "a full scan yields ", all.size(), " of ", m.rows.size(), " records");
  size_t i = 0;
  for (auto &[id, d] : m.rows) {
    c.check(all[i].first == id && meta::same(all[i].second, d), "scan position ", i, " is record ", all[i].first, " ",
            show(all[i].second), ", expected ", id, " ", show(d));
    ++i;
  }
  size_t limit = c.raw(m.rows.size() + 2);
  auto part = s.scan_with_filter([](const ScalarData &d) { return d.document.size() % 2 == 1; }, limit);
  i = 0;
  for (auto &[id, d] : m.rows) {
    if (d.document.size() % 2 == 1 && (limit == 0 || i < limit)) {
      c.check(i < part.size() && part[i].first == id, "limited scan misses record ", id, " (limit ", limit, ")");
      ++i;
    }
  }
  c.check(i == part.size(), "limited scan yields ", part.size(), ", expected ", i);
  // secondary indexes
  for (auto &f : indexed) {
    std::vector<MetadataValue> probes = {std::string("a"), int64_t{1}, 0.5, true, meta::gen_value(c, true)};
    for (auto &[id, d] : m.rows) {
      auto it = d.metadata.find(f);
      if (it != d.metadata.end()) {
        probes.push_back(it->second);
      }
    }
    for (auto &p : probes) {
      std::vector<Id> want;
      for (auto &[id, d] : m.rows) {
        auto it = d.metadata.find(f);
        if (it != d.metadata.end() && it->second == p) {
          want.push_back(id);
        }
      }
      auto got = s.get_ids_by_field_value(f, p);
      std::sort(got.begin(), got.end());
      c.check(got == want, "index lookup ", show(f), " == ", show(p), " yields ", meta::show_ids(got), ", records say ",
              meta::show_ids(want));
    }
    for (int k = 0; k < 3; ++k) {
      MetadataValue lo, hi;
      if (c.flip()) {
        lo = meta::gen_int(c, true), hi = meta::gen_int(c, true);
        if (std::get<0>(hi) < std::get<0>(lo)) {
          std::swap(lo, hi);
        }
      } else {
        lo = meta::gen_double(c, true), hi = meta::gen_double(c, true);
        if (std::get<1>(hi) < std::get<1>(lo)) {
          std::swap(lo, hi);
        }
      }
      std::vector<Id> want;
      for (auto &[id, d] : m.rows) {
        auto it = d.metadata.find(f);
        if (it != d.metadata.end() && in_range(it->second, lo, hi)) {
          want.push_back(id);
        }
      }
      auto got = lo.index() == 0 ? s.get_ids_by_int_range(f, std::get<0>(lo), std::get<0>(hi))
                                 : s.get_ids_by_double_range(f, std::get<1>(lo), std::get<1>(hi));
      std::sort(got.begin(), got.end());
      c.check(got == want, "index range ", show(lo), " <= ", show(f), " <= ", show(hi), " yields ", meta::show_ids(got),
              ", records say ", meta::show_ids(want));
    }
  }
}

alaya::RocksDBConfig config(const std::string &path, std::vector<std::string> indexed) {
  alaya::RocksDBConfig cfg;
  cfg.db_path_ = path;
  cfg.block_cache_size_mb_ = 1;
  cfg.write_buffer_size_ = 1 << 20;
  cfg.indexed_fields_ = std::move(indexed);
  return cfg;
}

// Copies the files of an open store as a process killed now would leave them: repeated until no background deletion
// or flush changed the directory during the copy.
bool copy_quiescent(const std::string &from, const std::filesystem::path &to) {
  namespace fs = std::filesystem;
  auto listing = [&] {
    std::map<std::string, uintmax_t> m;
    for (auto &e : fs::directory_iterator(from)) {
      auto n = e.path().filename().string();
      std::error_code ec;
      m[n] = n.starts_with("LOG") ? 0 : fs::file_size(e.path(), ec);
    }
    return m;
  };
  for (int i = 0; i < 400; ++i) {
    fs::remove_all(to);
    fs::create_directory(to);
    auto before = listing();
    bool good = true;
    for (auto &[n, size] : before) {
      std::error_code ec;
      fs::copy_file(fs::path(from) / n, to / n, ec);
      good = good && !ec;
    }
    if (good && listing() == before) {
      return true;
    }
    usleep(5000);
  }
  return false;
}

template <class Id>
void history(Case &c) {
  bool odd = c.flip();
  std::vector<std::string> indexed;
  for (auto f : {"cat", "num", "val", "ok", "num_2"}) {
    if (c.chance(2, 3)) {
      indexed.push_back(f);
    }
  }
  const Id max_id = 12;
  auto cfg = config((c.dir() / "db").string(), indexed);
  auto s = std::make_unique<alaya::RocksDBStorage<Id>>(cfg);
  Model<Id> m;
  size_t steps = 1 + c.raw(24), changes = 0, copies = 0;
  bool counted = true;
  c.note(odd ? "odd values, " : "", indexed.size(), " indexed fields");
  auto gen_id = [&] { return static_cast<Id>(c.raw(max_id)); };
  for (size_t st = 0; st < steps; ++st) {
    switch (c.weighted({6, 3, 4, 4, 2, 1, 1, 1})) {
      case 0: {
        Id id = gen_id();
        auto d = gen_record(c, odd);
        auto own = m.owner(d.item_id);
        bool want = !own || *own == id, got = s->insert(id, d);
        c.note("insert ", id, " ", show(d));
        c.check(got == want, "insert ", id, " returned ", got);
        if (got) {
          changes += m.rows.count(id);
          m.rows[id] = d;
        }
        break;
      }
      case 1: {
        Id id = gen_id();
        std::vector<ScalarData> v(1 + c.raw(4));
        bool want = true;
        std::set<std::string> seen;
        c.note("batch insert at ", id);
        for (size_t i = 0; i < v.size(); ++i) {
          v[i] = gen_record(c, odd);
          c.note("  ", show(v[i]));
          auto own = m.owner(v[i].item_id);
          if (!v[i].item_id.empty() && ((own && *own != id + i) || !seen.insert(v[i].item_id).second)) {
            want = false;
          }
        }
        if (id + v.size() > static_cast<size_t>(max_id)) {
          break;
        }
        bool got = s->batch_insert(id, v.begin(), v.end());
        c.check(got == want, "batch insert returned ", got);
        for (size_t i = 0; got && i < v.size(); ++i) {
          changes += m.rows.count(static_cast<Id>(id + i));
          m.rows[static_cast<Id>(id + i)] = v[i];
        }
        break;
      }
      case 2: {
        Id id = gen_id();
        auto d = gen_record(c, odd);
        if (c.flip() && m.rows.count(id)) {
          d.item_id = m.rows[id].item_id;
        }
        auto own = m.owner(d.item_id);
        bool want = m.rows.count(id) && (!own || *own == id), got = s->update(id, d);
        c.note("update ", id, " ", show(d));
        c.check(got == want, "update ", id, " returned ", got);
        if (got) {
          ++changes;
          m.rows[id] = d;
        }
        break;
      }
      case 3: {
        Id id = gen_id();
        bool want = m.rows.erase(id) > 0, got = s->remove(id);
        c.note("remove ", id);
        c.check(got == want, "remove ", id, " returned ", got);
        changes += got;
        break;
      }
      case 4:
        c.note("close and reopen");
        c.label("reopen");
        s.reset();
        s = std::make_unique<alaya::RocksDBStorage<Id>>(cfg);
        break;
      case 5: {
        auto to = (c.dir() / ("cp" + std::to_string(copies++))).string();
        c.note("checkpoint");
        c.label("checkpoint");
        s->save(to);
        alaya::RocksDBStorage<Id> copy(config(to, indexed));
        compare(c, copy, m, indexed, max_id, counted);
        break;
      }
      case 6: {
        // what is on disk now is what a process killed here would find
        auto to = c.dir() / ("crash" + std::to_string(copies++));
        c.note("look at the files as a killed process leaves them");
        c.label("killed");
        c.assume(copy_quiescent(cfg.db_path_, to));
        alaya::RocksDBStorage<Id> copy(config(to.string(), indexed));
        compare(c, copy, m, indexed, max_id, true);
        break;
      }
      case 7:
        c.note("flush / compact / move");
        s->flush();
        s->compact();
        if (c.flip()) {
          auto t = std::make_unique<alaya::RocksDBStorage<Id>>(std::move(*s));
          s = std::move(t);
        }
        break;
    }
  }
  compare(c, *s, m, indexed, max_id, counted);
  s.reset();
  s = std::make_unique<alaya::RocksDBStorage<Id>>(cfg);
  compare(c, *s, m, indexed, max_id, counted);
  c.nontrivial(changes > 1 && m.rows.size() > 1);
}
}  // namespace

PBT(store_history, "random insert/batch/update/remove/reopen/checkpoint/kill histories of the metadata store against a map, "
    "comparing every lookup, scan and index; non-trivial: some record replaced or removed and several left", 500, 20000,
    Opts{.hang_s = 60}) {
  if (c.flip()) {
    history<uint32_t>(c);
  } else {
    history<uint64_t>(c);
  }
}

PBT(legacy_records, "records stored under the unpadded keys of older versions are read, replaced and removed like any other; "
    "non-trivial: several records", 100, 3000, Opts{.hang_s = 60}) {
  auto path = (c.dir() / "db").string();
  Model<uint32_t> m;
  {
    rocksdb::DB *db = nullptr;
    rocksdb::Options o;
    o.create_if_missing = true;
    c.check(rocksdb::DB::Open(o, path, &db).ok(), "cannot create the store");
    std::unique_ptr<rocksdb::DB> own(db);
    size_t n = 1 + c.raw(8);
    for (size_t i = 0; i < n; ++i) {
      uint32_t id = static_cast<uint32_t>(c.raw(12));
      if (m.rows.count(id)) {
        continue;
      }
      auto d = gen_record(c, false);
      if (m.owner(d.item_id)) {
        continue;
      }
      auto ser = d.serialize();
      db->Put({}, "d_" + std::to_string(id), rocksdb::Slice(ser.data(), ser.size()));
      if (!d.item_id.empty()) {
        db->Put({}, "i_" + d.item_id, rocksdb::Slice(reinterpret_cast<char *>(&id), 4));
      }
      for (auto f : {"cat", "num"}) {
        if (d.metadata.count(f)) {
          db->Put({}, ie::make_field_index_key<uint32_t>(f, ie::encode_value(d.metadata[f]), id), "");
        }
      }
      m.rows[id] = d;
    }
    size_t cnt = m.rows.size();
    db->Put({}, "__COUNT__", rocksdb::Slice(reinterpret_cast<char *>(&cnt), sizeof cnt));
    c.nontrivial(cnt > 1);
  }
  auto cfg = config(path, {"cat", "num"});
  auto s = std::make_unique<alaya::RocksDBStorage<uint32_t>>(cfg);
  compare<uint32_t>(c, *s, m, cfg.indexed_fields_, 12, true);
  for (size_t st = c.raw(6); st > 0; --st) {
    uint32_t id = static_cast<uint32_t>(c.raw(12));
    auto d = gen_record(c, false);
    auto own = m.owner(d.item_id);
    bool had = m.rows.count(id) > 0, free = !own || *own == id;
    switch (c.raw(3)) {
      case 0:
        c.check(s->insert(id, d) == free, "insert ", id);
        if (free) {
          m.rows[id] = d;
        }
        break;
      case 1:
        c.check(s->update(id, d) == (had && free), "update ", id);
        if (had && free) {
          m.rows[id] = d;
        }
        break;
      case 2:
        c.check(s->remove(id) == had, "remove ", id);
        m.rows.erase(id);
        break;
      default:
        c.check(s->batch_insert(id, &d, &d + 1) == free, "batch insert ", id);
        if (free) {
          m.rows[id] = d;
        }
        break;
    }
  }
  compare<uint32_t>(c, *s, m, cfg.indexed_fields_, 13, true);
  s = nullptr;
  s = std::make_unique<alaya::RocksDBStorage<uint32_t>>(cfg);
  compare<uint32_t>(c, *s, m, cfg.indexed_fields_, 13, true);
}

PBT(second_opener, "a second opener of a store in use reads it but cannot write; after the first closes, an opener can; "
    "non-trivial: always", 30, 500, Opts{.hang_s = 60}) {
  c.nontrivial();
  auto cfg = config((c.dir() / "db").string(), {"num"});
  auto a = std::make_unique<alaya::RocksDBStorage<uint32_t>>(cfg);
  Model<uint32_t> m;
  for (uint32_t id = 0; id < 1 + c.raw(4); ++id) {
    auto d = gen_record(c, false);
    d.item_id = "u" + std::to_string(id);
    c.check(a->insert(id, d), "insert");
    m.rows[id] = d;
  }
  if (c.flip()) {
    a->flush();
  }
  {
    alaya::RocksDBStorage<uint32_t> b(cfg);
    c.check(!a->is_read_only() && b.is_read_only(), "two writers were admitted");
    compare<uint32_t>(c, b, m, {"num"}, 6, false);
    int refused = 0;
    auto d = gen_record(c, false);
    auto attempt = [&](auto &&fn) {
      try {
        fn();
      } catch (const std::exception &) {
        ++refused;
      }
    };
    attempt([&] { b.insert(9, d); });
    attempt([&] { b.remove(0); });
    attempt([&] { b.update(0, d); });
    attempt([&] { b.batch_insert(9, &d, &d + 1); });
    c.check(refused == 4, "a read-only handle accepted a write");
  }
  compare<uint32_t>(c, *a, m, {"num"}, 9, true);
  a.reset();
  alaya::RocksDBStorage<uint32_t> again(cfg);
  c.check(!again.is_read_only(), "the closed store cannot be written");
  compare<uint32_t>(c, again, m, {"num"}, 9, true);
}

PBT(record_serialisation, "a record written and read back is the same record, its size is as announced, selected fields read "
    "the same, and every truncation is refused; non-trivial: some metadata", 20000, 1000000) {
  std::vector<std::string> fields = {"cat", "num", "val", "ok", "", "num_2", std::string("k\0y", 3)};
  ScalarData d(meta::gen_string(c, true), c.chance(1, 10) ? std::string(c.raw(3000), 'd') : meta::gen_string(c, true),
               meta::gen_metadata(c, fields, true));
  c.note(show(d));
  c.nontrivial(!d.metadata.empty());
  auto v = d.serialize();
  c.check(v.size() == d.serialized_size(), "serialized_size ", d.serialized_size(), ", written ", v.size());
  std::unique_ptr<char[]> buf(new char[v.size()]);
  std::memcpy(buf.get(), v.data(), v.size());
  auto r = ScalarData::deserialize(buf.get(), v.size());
  c.check(meta::same(r, d), "read back as ", show(r));
  std::unordered_set<std::string> want;
  MetadataMap expect;
  for (auto &f : fields) {
    if (c.flip()) {
      want.insert(f);
      if (d.metadata.count(f)) {
        expect[f] = d.metadata[f];
      }
    }
    if (!f.empty()) {
      auto one = ScalarData::deserialize_single_metadata_value(buf.get(), v.size(), f);
      c.check(one.has_value() == (d.metadata.count(f) > 0) && (!one || meta::same(*one, d.metadata[f])), "single field ", show(f));
    }
  }
  auto sel = ScalarData::deserialize_selected_metadata(buf.get(), v.size(), want);
  c.check(meta::same(sel, expect), "selected fields read ", show(sel), ", expected ", show(expect));
  size_t cut = c.raw(v.size() - 1);
  std::unique_ptr<char[]> part(new char[cut + 1]);
  char *p = part.get() + 1;  // exactly `cut` bytes up to the end of the block
  std::memcpy(p, v.data(), cut);
  bool refused = false;
  try {
    ScalarData::deserialize(p, cut);
  } catch (const std::exception &) {
    refused = true;
  }
  c.check(refused, "a record cut to ", cut, " of ", v.size(), " bytes was accepted");
  ScalarData::deserialize_selected_metadata(p, cut, want);
  ScalarData::deserialize_single_metadata_value(p, cut, "num");
}

PBT(index_keys_order, "index keys sort exactly as the numbers they encode, decode to them, and give back their id; non-trivial: "
    "different values", 20000, 1000000) {
  auto i64 = [&] {
    return c.flip() ? static_cast<int64_t>(c.raw(UINT64_MAX)) : meta::gen_int(c, true);
  };
  auto dbl = [&] {
    if (c.flip()) {
      return meta::gen_double(c, true);
    }
    uint64_t b = c.raw(UINT64_MAX);
    double d;
    std::memcpy(&d, &b, 8);
    return std::isnan(d) ? 1.0 : d;
  };
  int64_t a = i64(), b = i64();
  c.nontrivial(a != b);
  auto ea = ie::encode_int64(a), eb = ie::encode_int64(b);
  c.check((a < b) == (ea < eb) && (a == b) == (ea == eb) && ea.size() == eb.size(), "ints ", a, " ", b, " encode ", ea, " ", eb);
  c.check(ie::decode_int64(ea) == a, "int ", a, " decodes to ", ie::decode_int64(ea));
  double x = dbl(), y = dbl();
  auto ex = ie::encode_double(x), ey = ie::encode_double(y);
  c.check((x < y ? ex < ey : true) && (ex == ey ? x == y : true) && ex.size() == ey.size(), "doubles ", x, " ", y, " encode ", ex, " ", ey);
  double back = ie::decode_double(ex);
  c.check(std::memcmp(&back, &x, 8) == 0, "double ", x, " decodes to ", back);
  uint64_t id = c.flip() ? c.raw(UINT64_MAX) : c.raw(1000);
  MetadataValue v = meta::gen_value(c, true);
  auto key = ie::make_field_index_key<uint64_t>("num", ie::encode_value(v), id);
  c.check(ie::extract_id_from_key<uint64_t>(key) == id, "key ", show(key), " gives id ", ie::extract_id_from_key<uint64_t>(key));
  c.check(key.starts_with(ie::make_field_index_prefix("num", ie::encode_value(v))) && key.starts_with(ie::make_field_prefix("num")),
          "key ", show(key), " lacks its prefix");
}

PBT(colliding_field_names, "index lookups when one indexed field's name is another's followed by _s; non-trivial: several records",
    60, 500, Opts{.hang_s = 60}) {
  alaya::RocksDBStorage<uint32_t> s(config((c.dir() / "db").string(), {"cat", "cat_s"}));
  Model<uint32_t> m;
  size_t n = 2 + c.raw(4);
  c.nontrivial();
  for (uint32_t id = 0; id < n; ++id) {
    ScalarData d;
    for (auto f : {"cat", "cat_s"}) {
      if (c.flip()) {
        d.metadata[f] = c.pick<std::string>({"a", "s_a", "b", "s_b"});
      }
    }
    c.check(s.insert(id, d), "insert");
    m.rows[id] = d;
  }
  for (auto f : {"cat", "cat_s"}) {
    for (std::string v : {"a", "s_a", "b", "s_b"}) {
      std::vector<uint32_t> want;
      for (auto &[id, d] : m.rows) {
        if (d.metadata.count(f) && d.metadata[f] == MetadataValue(v)) {
          want.push_back(id);
        }
      }
      auto got = s.get_ids_by_field_value(f, v);
      std::sort(got.begin(), got.end());
      c.check(got == want, "colliding index keys: lookup ", f, " == ", v, " yields ", meta::show_ids(got), ", records say ",
              meta::show_ids(want));
    }
  }
}
