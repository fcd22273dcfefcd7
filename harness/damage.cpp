// P14: manifests, segment files and graph files that are damaged, foreign or hostile.
#include <sys/stat.h>

#include <fstream>
#include <map>
#include <optional>
#include <set>
#include <sstream>

#include "gen.hpp"
#include "index/disk/disk_collection.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "index/graph/vamana/vamana_writer.hpp"
#include "main.hpp"

namespace fs = std::filesystem;
using namespace alaya::disk;
using alaya::MetricType;

namespace {

std::string slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spit(const fs::path &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), static_cast<std::streamsize>(s.size()));
}

// ---- a reference parser for the manifest grammar -----------------------------------------------------------------
// One `key=value` per line, blank lines and # comments ignored, blanks around keys and values stripped, every scalar
// key once, required keys present, unknown keys only with the x_ prefix, segments either repeated or one csv list.

struct Reject {
  std::string why;
};

std::string trim(const std::string &s) {
  size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

std::vector<std::pair<std::string, std::string>> ref_lines(const std::string &text) {
  if (text.size() > (1u << 20)) throw Reject{"too large"};
  if (text.compare(0, 3, "\xEF\xBB\xBF") == 0) throw Reject{"byte order mark"};
  std::vector<std::pair<std::string, std::string>> out;
  size_t pos = 0;
  while (pos <= text.size()) {
    size_t e = text.find('\n', pos);
    if (e == std::string::npos) e = text.size();
    std::string line = trim(text.substr(pos, e - pos));
    pos = e + 1;
    if (line.empty() || line[0] == '#') continue;
    size_t eq = line.find('=');
    if (eq == std::string::npos) throw Reject{"no separator"};
    out.emplace_back(trim(line.substr(0, eq)), trim(line.substr(eq + 1)));
  }
  return out;
}

uint64_t ref_number(const std::string &s) {
  if (s.empty()) throw Reject{"empty number"};
  unsigned __int128 v = 0;
  for (char ch : s) {
    if (ch < '0' || ch > '9') throw Reject{"not a number"};
    v = v * 10 + static_cast<unsigned>(ch - '0');
    if (v > UINT64_MAX) throw Reject{"number too large"};
  }
  return static_cast<uint64_t>(v);
}
bool ref_seg_id(const std::string &s) { return s.size() == 12 && s.compare(0, 4, "seg_") == 0 && s.find_first_not_of("0123456789", 4) == std::string::npos; }
bool ref_base(const std::string &s) { return !s.empty() && s != "." && s != ".." && s.find('/') == std::string::npos && s.find('\0') == std::string::npos; }

template <class M>
void ref_common(std::map<std::string, std::string> &kv, M &m) {
  m.version = ref_number(kv.at("version"));
  if (m.version != 1) throw Reject{"version"};
  m.dim = ref_number(kv.at("dim"));
  if (m.dim == 0) throw Reject{"dim 0"};
  auto &me = kv.at("metric");
  if (me == "L2") m.metric = MetricType::L2;
  else if (me == "IP") m.metric = MetricType::IP;
  else if (me == "COS") m.metric = MetricType::COS;
  else throw Reject{"metric"};
  auto &t = kv.at("index_type");
  if (t == "disk_flat") m.index_type = DiskIndexType::Flat;
  else if (t == "disk_vamana") m.index_type = DiskIndexType::Vamana;
  else if (t == "disk_laser") m.index_type = DiskIndexType::Laser;
  else throw Reject{"index type"};
}

std::map<std::string, std::string> ref_scalars(const std::vector<std::pair<std::string, std::string>> &lines, const std::set<std::string> &required, const std::set<std::string> &may_be_empty) {
  std::map<std::string, std::string> kv;
  for (auto &[k, v] : lines)
    if (!kv.emplace(k, v).second) throw Reject{"duplicate key"};
  for (auto &k : required) {
    if (!kv.count(k)) throw Reject{"missing key"};
    if (kv[k].empty() && !may_be_empty.count(k)) throw Reject{"empty value"};
  }
  for (auto &[k, v] : kv)
    if (!required.count(k) && k.compare(0, 2, "x_") != 0) throw Reject{"unknown key"};
  return kv;
}

SegmentManifest ref_segment(const std::string &text) {
  static const std::set<std::string> req{"version", "segment_id", "index_type", "metric", "dim", "count", "ids_file", "vectors_file"};
  auto kv = ref_scalars(ref_lines(text), req, {"vectors_file"});
  SegmentManifest m;
  ref_common(kv, m);
  m.segment_id = kv["segment_id"];
  if (!ref_seg_id(m.segment_id)) throw Reject{"segment id"};
  m.count = ref_number(kv["count"]);
  if (m.count == 0) throw Reject{"count 0"};
  m.ids_file = kv["ids_file"];
  m.vectors_file = kv["vectors_file"];
  if (!ref_base(m.ids_file) || (!m.vectors_file.empty() && !ref_base(m.vectors_file))) throw Reject{"file name"};
  for (auto &[k, v] : kv)
    if (!req.count(k)) m.x_extras[k] = v;
  return m;
}

CollectionManifest ref_collection(const std::string &text) {
  static const std::set<std::string> req{"version", "dim", "metric", "index_type", "next_segment_id"};
  std::vector<std::pair<std::string, std::string>> rest;
  CollectionManifest m;
  std::optional<std::string> csv;
  for (auto &[k, v] : ref_lines(text)) {
    if (k == "segment") {
      m.segment_ids.push_back(v);
    } else if (k == "segments") {
      if (csv) throw Reject{"duplicate segments"};
      csv = v;
    } else {
      rest.emplace_back(k, v);
    }
  }
  if (csv && !m.segment_ids.empty()) throw Reject{"both forms"};
  auto kv = ref_scalars(rest, req, {});
  ref_common(kv, m);
  m.next_segment_id = ref_number(kv["next_segment_id"]);
  if (csv) {
    std::string s = *csv + ",";
    for (size_t p = 0, e; (e = s.find(',', p)) != std::string::npos; p = e + 1) m.segment_ids.push_back(s.substr(p, e - p));
  }
  for (auto &id : m.segment_ids)
    if (!ref_seg_id(id)) throw Reject{"segment id"};
  for (auto &[k, v] : kv)
    if (!req.count(k)) m.x_extras[k] = v;
  return m;
}

std::string text_of(const SegmentManifest &m) {
  std::ostringstream o;
  o << m.version << '|' << m.segment_id << '|' << static_cast<int>(m.index_type) << '|' << static_cast<int>(m.metric) << '|' << m.dim << '|' << m.count << '|' << m.ids_file << '|' << m.vectors_file;
  for (auto &[k, v] : m.x_extras) o << '|' << k << "->" << v;
  return o.str();
}
std::string text_of(const CollectionManifest &m) {
  std::ostringstream o;
  o << m.version << '|' << static_cast<int>(m.index_type) << '|' << static_cast<int>(m.metric) << '|' << m.dim << '|' << m.next_segment_id;
  for (auto &s : m.segment_ids) o << '|' << s;
  for (auto &[k, v] : m.x_extras) o << '|' << k << "->" << v;
  return o.str();
}

// ---- generators --------------------------------------------------------------------------------------------------

uint64_t gen_u64(pbt::Case &c) {
  switch (c.raw(3)) {
    case 0: return c.size(1, 2000);
    case 1: return UINT64_MAX - c.raw(3);
    case 2: return (uint64_t{1} << c.raw(63)) + c.raw(1);
    default: return c.seed() % 1000000 + 1;
  }
}

std::string gen_word(pbt::Case &c, const char *alphabet, size_t lo, size_t hi) {
  std::string s;
  size_t n = c.size(lo, hi), k = std::strlen(alphabet);
  for (size_t i = 0; i < n; ++i) s += alphabet[c.raw(k - 1)];
  return s;
}

std::string gen_value(pbt::Case &c) { return trim(gen_word(c, "a0=#, .\t/;:\"'\\\x80\xff_", 0, 20)); }
std::string gen_key(pbt::Case &c) { return "x_" + gen_word(c, "abcXYZ019_.-#", 0, 12); }
std::string gen_file(pbt::Case &c) {
  std::string s = trim(gen_word(c, "abc019_.- =#,", 1, 16));
  return s.empty() || s == "." || s == ".." ? "f" : s;
}
std::string gen_seg(pbt::Case &c) {
  char b[32];
  snprintf(b, sizeof b, "seg_%08d", static_cast<int>(c.chance(1, 4) ? 99999999 - c.raw(3) : c.raw(1000)));
  return b;
}

const MetricType kMetrics[] = {MetricType::L2, MetricType::IP, MetricType::COS};
const DiskIndexType kTypes[] = {DiskIndexType::Flat, DiskIndexType::Vamana, DiskIndexType::Laser};

SegmentManifest gen_segment(pbt::Case &c) {
  SegmentManifest m;
  m.segment_id = gen_seg(c);
  m.index_type = kTypes[c.raw(2)];
  m.metric = kMetrics[c.raw(2)];
  m.dim = gen_u64(c);
  m.count = gen_u64(c);
  m.ids_file = gen_file(c);
  m.vectors_file = c.chance(1, 6) ? "" : gen_file(c);
  for (size_t n = c.raw(4); n > 0; --n) m.x_extras[gen_key(c)] = gen_value(c);
  return m;
}
CollectionManifest gen_collection(pbt::Case &c) {
  CollectionManifest m;
  m.index_type = kTypes[c.raw(2)];
  m.metric = kMetrics[c.raw(2)];
  m.dim = gen_u64(c);
  m.next_segment_id = c.chance(1, 5) ? 0 : gen_u64(c);
  for (size_t n = c.raw(6); n > 0; --n) m.segment_ids.push_back(gen_seg(c));
  for (size_t n = c.raw(4); n > 0; --n) m.x_extras[gen_key(c)] = gen_value(c);
  return m;
}

template <class M>
void round_trip(pbt::Case &c, const M &m) {
  auto p = c.dir() / "m.txt";
  m.save(p);
  auto bytes = slurp(p);
  M got;
  try {
    got = M::load(p);
  } catch (const std::exception &e) {
    c.fail("a saved manifest does not load: ", e.what(), "\n", bytes);
  }
  c.check(text_of(got) == text_of(m), "saved ", text_of(m), ", loaded ", text_of(got));
  got.save(p);
  c.check(slurp(p) == bytes, "saving again changes the text");
}

// One edit of a manifest text.
std::string edit_text(pbt::Case &c, std::string t) {
  std::vector<std::string> lines;
  {
    std::istringstream in(t);
    std::string l;
    while (std::getline(in, l)) lines.push_back(l);
  }
  auto join = [&](const char *nl = "\n") {
    std::string o;
    for (auto &l : lines) o += l + nl;
    return o;
  };
  if (lines.empty()) return t;
  size_t i = c.raw(lines.size() - 1);
  size_t eq = lines[i].find('=');
  std::string key = lines[i].substr(0, eq), val = eq == std::string::npos ? "" : lines[i].substr(eq + 1);
  switch (c.raw(19)) {
    case 0: lines.erase(lines.begin() + static_cast<long>(i)); return join();
    case 1: lines.push_back(lines[i]); return join();
    case 2: std::swap(lines[i], lines[c.raw(lines.size() - 1)]); return join();
    case 3: lines[i] = " \t" + key + " = " + val + " \t"; return join();
    case 4: return join("\r\n");
    case 5: lines.insert(lines.begin() + static_cast<long>(i), c.pick({std::string(""), std::string("# a comment"), std::string("   "), std::string(" #x=1")})); return join();
    case 6: lines[i] = "#" + lines[i]; return join();
    case 7: lines[i] = key + "="; return join();
    case 8: lines[i] = key; return join();
    case 9: lines[i] = key + "=" + c.pick({std::string("0"), std::string("-1"), std::string("+1"), std::string("01"), std::string("1 2"), std::string("0x1"), std::string("18446744073709551615"), std::string("18446744073709551616"), std::string("99999999999999999999999"), std::string("1e3"), std::string("L2"), std::string("IP"), std::string("l2"), std::string("NONE"), std::string("disk_flat"), std::string("disk_vamana"), std::string("flat")}); return join();
    case 10: lines[i] = key + "=" + c.pick({std::string(".."), std::string("."), std::string("../x"), std::string("/etc/hostname"), std::string("a/b"), std::string("..x"), std::string("seg_1"), std::string("seg_0000000a"), std::string("seg_000000001"), std::string("SEG_00000001")}); return join();
    case 11: {
      std::string bad = val + '\0' + "z";
      lines[i] = key + "=" + bad;
      return join();
    }
    case 12: return "\xEF\xBB\xBF" + t;
    case 13: lines.push_back(c.pick({std::string("unknown=1"), std::string("x_new=1"), std::string("x_=1"), std::string("=1"), std::string("X_new=1"), std::string("segments=seg_00000001,seg_00000002"), std::string("segments="), std::string("segments=seg_00000001,"), std::string("segments=,seg_00000001"), std::string("segments=seg_00000001,,seg_00000002"), std::string("segment=seg_00000003"), std::string("segment=")})); return join();
    case 14: t.resize(c.raw(t.size())); return t;
    case 15: {
      size_t n = 1 + c.raw(3);
      for (size_t k = 0; k < n && !t.empty(); ++k) t[c.raw(t.size() - 1)] = static_cast<char>(c.raw(255));
      return t;
    }
    case 16: t.erase(c.raw(t.size() - 1), 1 + c.raw(3)); return t;
    case 17: t.insert(c.raw(t.size()), gen_word(c, "\n=# x_1\r\t,", 1, 5)); return t;
    case 18: {  // at and beyond the size limit
      size_t want = (1u << 20) + (c.flip() ? 0 : 1 + c.raw(9));
      t += "#";
      t.resize(std::max(t.size(), want), 'p');
      return t;
    }
    default: lines[i] = val + "=" + key; return join();
  }
}

template <class M, class F>
void differential(pbt::Case &c, const M &m, F ref) {
  auto p = c.dir() / "m.txt";
  m.save(p);
  std::string t = slurp(p);
  for (size_t n = 1 + c.raw(2); n > 0; --n) t = edit_text(c, t);
  spit(p, t);
  std::optional<M> want;
  std::string why;
  try {
    want = ref(t);
  } catch (const Reject &r) {
    why = r.why;
  }
  std::optional<M> got;
  std::string err;
  try {
    got = M::load(p);
  } catch (const std::exception &e) {
    err = e.what();
  }
  if (t.size() < 2000) c.note("text:\n", t);
  if (!want && got) c.fail("a manifest with a fault (", why, ") was accepted as ", text_of(*got));
  if (want) c.check(got.has_value(), "a well-formed manifest was refused: ", err);
  if (want && got) c.check(text_of(*want) == text_of(*got), "read as ", text_of(*got), ", expected ", text_of(*want));
  c.label(want ? "accepted" : "refused: " + why);
  c.nontrivial();
}
}  // namespace

PBT(segment_manifest_round_trip, "always", 4000, 200000) {
  round_trip(c, gen_segment(c));
  c.nontrivial();
}
PBT(collection_manifest_round_trip, "always", 4000, 200000) {
  round_trip(c, gen_collection(c));
  c.nontrivial();
}
PBT(segment_manifest_text, "the text was edited", 5000, 300000) { differential(c, gen_segment(c), ref_segment); }
PBT(collection_manifest_text, "the text was edited", 5000, 300000) { differential(c, gen_collection(c), ref_collection); }

// A manifest that was saved can be loaded, however many segments it lists.
PBT(large_manifest, "the manifest has at least ten thousand lines", 6, 60) {
  CollectionManifest m;
  m.dim = 4;
  size_t n = 10000 + c.raw(45000);
  for (size_t i = 0; i < n; ++i) m.segment_ids.push_back(detail::format_segment_id(i + 1));
  m.next_segment_id = n + 1;
  auto p = c.dir() / "m.txt";
  bool saved = true;
  try {
    m.save(p);
  } catch (const std::exception &) {
    saved = false;
  }
  if (saved) {
    try {
      auto got = CollectionManifest::load(p);
      c.check(text_of(got) == text_of(m), "a large manifest changed");
    } catch (const std::exception &e) {
      c.fail("a manifest of ", n, " segments was saved but does not load: ", e.what());
    }
  }
  c.label(saved ? "saved" : "refused");
  c.nontrivial();
}

// ---- whole collections -------------------------------------------------------------------------------------------
namespace {

struct Seg {
  std::vector<uint64_t> ids;
  std::vector<float> vecs;
  DiskIndexType type;
  MetricType metric;
};

bool plain_file(const fs::path &p) { return !fs::is_symlink(p) && fs::is_regular_file(p); }

// An independent reading of a collection directory. Throws Reject where opening has to fail.
std::vector<Seg> ref_open(const fs::path &root, CollectionManifest &cm, const std::map<std::string, std::string> &extras, bool *unsure) {
  if (!plain_file(root / "collection_manifest.txt")) throw Reject{"no manifest"};
  cm = ref_collection(slurp(root / "collection_manifest.txt"));
  *unsure = cm.x_extras != extras;  // changed build parameters may be refused or not
  if (cm.index_type == DiskIndexType::Laser) throw Reject{"laser"};
  if (cm.index_type == DiskIndexType::Vamana && cm.metric != MetricType::L2) throw Reject{"graph metric"};
  std::vector<Seg> out;
  std::set<std::string> listed;
  for (auto &id : cm.segment_ids) {
    auto d = root / "segments" / id;
    if (!listed.insert(id).second) throw Reject{"listed twice"};
    if (fs::is_symlink(d) || !fs::is_directory(d)) throw Reject{"segment directory"};
    if (!plain_file(d / "manifest.txt")) throw Reject{"segment manifest"};
    auto sm = ref_segment(slurp(d / "manifest.txt"));
    if (sm.segment_id != id || sm.dim != cm.dim || sm.metric != cm.metric || sm.index_type != cm.index_type) throw Reject{"foreign segment"};
    if (sm.vectors_file.empty() || !plain_file(d / sm.ids_file) || !plain_file(d / sm.vectors_file)) throw Reject{"segment files"};
    if (sm.dim > UINT32_MAX) throw Reject{"dimension"};
    std::string ids = slurp(d / sm.ids_file), vec = slurp(d / sm.vectors_file);
    if (static_cast<unsigned __int128>(sm.count) * 8 != ids.size()) throw Reject{"ids size"};
    if (static_cast<unsigned __int128>(sm.count) * sm.dim * 4 != vec.size()) throw Reject{"vectors size"};
    Seg s;
    s.type = sm.index_type;
    s.metric = sm.metric;
    s.ids.resize(sm.count);
    s.vecs.resize(sm.count * sm.dim);
    std::memcpy(s.ids.data(), ids.data(), ids.size());
    std::memcpy(s.vecs.data(), vec.data(), vec.size());
    if (sm.index_type == DiskIndexType::Vamana) {
      auto it = sm.x_extras.find("x_graph_file");
      if (it == sm.x_extras.end() || !ref_base(it->second) || !plain_file(d / it->second)) throw Reject{"graph file"};
      std::string g = slurp(d / it->second);
      uint64_t size = 0, frozen = 0;
      uint32_t deg = 0, start = 0;
      if (g.size() < 24) throw Reject{"graph header"};
      std::memcpy(&size, g.data(), 8);
      std::memcpy(&deg, g.data() + 8, 4);
      std::memcpy(&start, g.data() + 12, 4);
      std::memcpy(&frozen, g.data() + 16, 8);
      if (size != g.size() || deg == 0 || frozen != 0) throw Reject{"graph header"};
      size_t p = 24, n = 0;
      bool bad = false;
      while (p < g.size()) {
        uint32_t k;
        if (g.size() - p < 4) throw Reject{"graph cut"};
        std::memcpy(&k, g.data() + p, 4);
        p += 4;
        if (k == 0 || k > deg || g.size() - p < 4ull * k) throw Reject{"graph degree"};
        for (uint32_t j = 0; j < k; ++j) {
          uint32_t y;
          std::memcpy(&y, g.data() + p + 4 * j, 4);
          bad = bad || y >= sm.count || y == n;
        }
        p += 4ull * k;
        ++n;
      }
      if (bad || n != sm.count || start >= n) throw Reject{"graph contents"};
    }
    out.push_back(std::move(s));
  }
  return out;
}

std::string damage_bytes(pbt::Case &c, std::string b, const std::string &donor) {
  if (b.empty()) return "x";
  switch (c.raw(9)) {
    case 0: b[c.raw(b.size() - 1)] ^= static_cast<char>(1u << c.raw(7)); break;
    case 1: for (size_t n = 1 + c.raw(7); n > 0; --n) b[c.raw(b.size() - 1)] = static_cast<char>(c.raw(255)); break;
    case 2: b.resize(c.raw(b.size() - 1)); break;
    case 3: b.append(1 + c.raw(40), static_cast<char>(c.raw(255))); break;
    case 4: b.clear(); break;
    case 5: {  // a whole word takes an odd value
      static const uint32_t odd[] = {0, 1, UINT32_MAX, 0x7fffffff, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 24, 1000};
      for (size_t n = 1 + c.raw(5); n > 0 && b.size() >= 4; --n) {
        uint32_t w = odd[c.raw(9)];
        std::memcpy(b.data() + c.raw(b.size() / 4 - 1) * 4, &w, 4);
      }
      break;
    }
    case 6: {  // all floats NaN
      uint32_t w = 0x7fc00000u;
      for (size_t i = 0; i + 4 <= b.size(); i += 4)
        if (c.flip()) std::memcpy(b.data() + i, &w, 4);
      break;
    }
    case 7: b = donor; break;
    case 8: b.erase(0, 1 + c.raw(b.size() - 1)); break;
    default: std::fill(b.begin() + static_cast<long>(c.raw(b.size() - 1)), b.end(), '\0'); break;
  }
  return b;
}

void check_search(pbt::Case &c, const DiskCollection &col, const std::vector<Seg> *want, MetricType metric) {
  uint32_t d = col.dim();
  if (d > 4096) return;
  gen::Exact<float> q(d);
  pbt::Rng r(c.seed());
  std::map<uint64_t, std::vector<double>> dist;
  size_t rows = 0;
  for (uint32_t i = 0; i < d; ++i) q[i] = static_cast<float>(r.range(-8, 8));
  if (metric == MetricType::COS) q[0] = 3;
  bool finite = true;
  if (want) {
    double qn = 0;
    for (uint32_t i = 0; i < d; ++i) qn += double(q[i]) * q[i];
    for (auto &s : *want)
      for (size_t i = 0; i < s.ids.size(); ++i) {
        double x = 0;
        for (uint32_t j = 0; j < d; ++j) {
          double v = s.vecs[i * d + j];
          finite = finite && std::fabs(v) < 1e15;
          x += s.metric == MetricType::L2 ? (q[j] - v) * (q[j] - v) : -q[j] * v / (metric == MetricType::COS ? std::sqrt(qn) : 1.0);
        }
        dist[s.ids[i]].push_back(x);
        ++rows;
      }
    c.check(col.size() == rows, "the opened collection counts ", col.size(), " rows, its files hold ", rows);
  }
  for (uint32_t k : {1u, 7u, 500u}) {
    DiskSearchOptions o;
    o.top_k = k;
    o.ef = 200;
    std::vector<DiskSearchHit> h;
    try {
      h = col.search(q.get(), o);
    } catch (const std::exception &e) {
      c.label("search throws");
      continue;
    }
    if (!want) continue;
    c.check(h.size() <= k && h.size() <= rows, h.size(), " hits out of ", rows);
    for (size_t i = 0; i < h.size(); ++i) {
      auto it = dist.find(h[i].label);
      c.check(it != dist.end(), "label ", h[i].label, " is in no file");
      if (!finite) continue;
      bool near = false;
      for (double x : it->second) near = near || std::fabs(x - h[i].distance) <= 1e-4 * (1 + std::fabs(x)) + 1e-4 * 64;
      c.check(near, "label ", h[i].label, " at ", h[i].distance, ", its row is at ", it->second[0]);
      if (i) c.check(h[i - 1].distance <= h[i].distance, "not in order");
    }
  }
}

}  // namespace

PBT(damaged_collection, "the collection had at least one segment and a file was changed", 1500, 60000, pbt::Opts{.hang_s = 20}) {
  auto root = c.dir() / "col";
  bool graph = c.flip();
  MetricType metric = graph ? MetricType::L2 : kMetrics[c.raw(2)];
  uint32_t dim = static_cast<uint32_t>(c.size(1, 9));
  size_t segs = 1 + c.raw(2);
  pbt::Rng r(c.seed());
  auto make = [&](const fs::path &p, uint32_t d) {
    VamanaSegmentBuildParams vp;
    vp.R = 4;
    vp.L = 8;
    vp.num_threads = 1;
    DiskCollection col(p, d, metric, graph ? DiskIndexType::Vamana : DiskIndexType::Flat, DiskCollection::kDefaultMaxPendingBytes, vp);
    uint64_t label = 1;
    for (size_t s = 0; s < segs; ++s) {
      size_t n = 2 + r.below(30);
      std::vector<float> v(n * d);
      std::vector<uint64_t> l(n);
      for (auto &x : v) x = static_cast<float>(r.range(-8, 8));
      for (size_t i = 0; i < n; ++i) v[i * d] = v[i * d] == 0 ? 1.0f : v[i * d], l[i] = label++;
      col.add_batch(v.data(), l.data(), n);
      col.flush();
    }
  };
  make(root, dim);
  const auto extras = ref_collection(slurp(root / "collection_manifest.txt")).x_extras;
  auto donor = c.dir() / "donor";  // a collection the foreign files come from
  make(donor, c.flip() ? dim : dim + 1);
  std::ofstream(c.dir() / "outside.bin") << std::string(4096, 'o');
  std::vector<std::string> files{"collection_manifest.txt"};
  for (size_t s = 1; s <= segs; ++s)
    for (const char *f : {"manifest.txt", "ids.u64.bin", "vectors.f32.bin", "graph.index"}) {
      auto p = "segments/" + detail::format_segment_id(s) + "/" + f;
      if (fs::exists(root / p)) files.push_back(p);
    }
  for (size_t n = 1 + c.raw(1); n > 0; --n) {
    auto f = files[c.raw(files.size() - 1)];
    auto p = root / f;
    bool text = f.size() > 4 && f.substr(f.size() - 4) == ".txt";
    size_t kind = c.weighted({10, 1, 1, 1, 1, 1, 1});
    std::string what;
    switch (kind) {
      case 0:
        if (!fs::is_regular_file(p) || fs::is_symlink(p)) break;
        if (text && !c.chance(1, 6))
          spit(p, edit_text(c, slurp(p)));
        else
          spit(p, damage_bytes(c, slurp(p), slurp(donor / f)));
        what = "changed";
        break;
      case 1: fs::remove_all(p), what = "removed"; break;
      case 2:
        fs::remove_all(p);
        if (fs::exists(p.parent_path())) fs::create_directory(p);
        what = "made a directory";
        break;
      case 3:
        if (!plain_file(p)) break;
        spit(c.dir() / "aside", slurp(p));
        fs::remove_all(p);
        fs::create_symlink(c.flip() ? c.dir() / "aside" : c.dir() / "outside.bin", p);
        what = "made a link";
        break;
      case 4:
        if (!fs::exists(p.parent_path())) break;
        fs::remove_all(p);
        if (mkfifo(p.c_str(), 0600) != 0) break;
        what = "made a pipe";
        break;
      case 5: {  // a segment directory that is elsewhere
        auto d = root / "segments" / detail::format_segment_id(1 + c.raw(segs - 1));
        if (!fs::exists(d) || fs::is_symlink(d)) break;
        fs::remove_all(c.dir() / "elsewhere");
        fs::rename(d, c.dir() / "elsewhere");
        if (c.flip()) fs::create_symlink(c.dir() / "elsewhere", d);
        what = "moved the segment of";
        break;
      }
      default: {  // a segment of another collection, or in another place
        auto d = root / "segments" / detail::format_segment_id(1 + c.raw(segs - 1));
        auto from = (c.flip() ? donor : root) / "segments" / detail::format_segment_id(1 + c.raw(segs - 1));
        if (!fs::exists(from) || from == d || fs::is_symlink(from)) break;
        fs::remove_all(d);
        std::error_code ec;  // a pipe placed by the first change is not copied
        fs::copy(from, d, fs::copy_options::recursive | fs::copy_options::copy_symlinks, ec);
        what = "replaced the segment of";
        break;
      }
    }
    c.note(what, " ", f);
    c.label(what.empty() ? "nothing" : what);
  }
  CollectionManifest cm;
  std::optional<std::vector<Seg>> want;
  std::string why;
  bool unsure = false;
  try {
    want = ref_open(root, cm, extras, &unsure);
  } catch (const Reject &x) {
    why = x.why;
  }
  std::optional<DiskCollection> col;
  std::string err;
  try {
    col.emplace(DiskCollection::open(root));
  } catch (const std::exception &e) {
    err = e.what();
  }
  if (col) {
    c.check(want.has_value(), "a collection that has to be refused (", why, ") was opened");
    check_search(c, *col, &*want, cm.metric);
    c.label("opened");
  } else {
    if (want && !unsure) c.fail("an intact collection was refused: ", err);
    c.label("refused: " + why);
  }
  c.nontrivial();
}

// ---- graph files -------------------------------------------------------------------------------------------------
PBT(graph_file_damage, "the graph has at least two nodes and its file was changed", 3000, 200000) {
  size_t n = 2 + c.raw(20);
  uint32_t deg = static_cast<uint32_t>(1 + c.raw(7));
  pbt::Rng r(c.seed());
  std::vector<std::vector<uint32_t>> g(n);
  for (size_t i = 0; i < n; ++i) {
    std::set<uint32_t> s;
    for (size_t k = 1 + r.below(deg); k > 0; --k) {
      uint32_t y = static_cast<uint32_t>(r.below(n));
      if (y != i) s.insert(y);
    }
    if (s.empty()) s.insert(static_cast<uint32_t>((i + 1) % n));
    g[i].assign(s.begin(), s.end());
    if (r.flip()) std::reverse(g[i].begin(), g[i].end());
  }
  uint32_t start = static_cast<uint32_t>(r.below(n));
  auto p = c.dir() / "g.index";
  alaya::vamana::save_graph(g, p, deg, start);
  {
    alaya::vamana::VamanaReader rd(p);
    c.check(rd.num_nodes() == n && rd.start() == start && rd.max_degree() == deg && rd.frozen_pts() == 0, "header changed on the way");
    c.check(rd.graph() == g, "adjacency changed on the way");
  }
  std::string b = slurp(p), orig = b;
  b = damage_bytes(c, b, std::string(24, '\0'));
  if (c.chance(1, 2) && b.size() >= 8) {  // keep the size field right, so that the records are looked at
    uint64_t s = b.size();
    std::memcpy(b.data(), &s, 8);
  }
  spit(p, b);
  bool opened = false;
  try {
    alaya::vamana::VamanaReader rd(p);
    opened = true;
    uint64_t s;
    std::memcpy(&s, b.data(), 8);
    c.check(s == b.size(), "a file whose size field disagrees was opened");
    size_t at = 24, i = 0;
    for (auto &adj : rd.graph()) {
      uint32_t k;
      c.check(at + 4 <= b.size(), "more records than bytes");
      std::memcpy(&k, b.data() + at, 4);
      c.check(k == adj.size() && k > 0 && k <= rd.max_degree(), "node ", i, " has degree ", adj.size(), ", the file says ", k);
      c.check(at + 4 + 4ull * k <= b.size() && std::memcmp(adj.data(), b.data() + at + 4, 4ull * k) == 0, "neighbours of ", i, " differ from the file");
      for (uint32_t y : adj) c.check(y < rd.num_nodes() && y != i, "node ", i, " has neighbour ", y, " of ", rd.num_nodes());
      at += 4 + 4ull * k;
      ++i;
    }
    c.check(at == b.size() && rd.start() < rd.num_nodes(), "trailing bytes or a bad start were accepted");
  } catch (const std::exception &e) {
    if (b == orig) c.fail("the unchanged file was refused: ", e.what());
  }
  c.label(opened ? "opened" : "refused");
  c.nontrivial(b != orig);
}
