// Evaluation, data set, file, arithmetic, random and memory helpers against their definitions.
#include <sys/wait.h>
#include <unistd.h>
#include <bit>
#include <cmath>
#include <cstring>
#include <fstream>
#include <limits>
#include <set>
#include <unordered_set>
#include "gen.hpp"
#include "main.hpp"
#include "index/graph/laser/utils/array.hpp"
#include "index/graph/laser/utils/io.hpp"
#include "index/graph/laser/utils/tools.hpp"
#include "utils/data_utils.hpp"
#include "utils/dataset_utils.hpp"
#include "utils/evaluate.hpp"
#include "utils/io_utils.hpp"
#include "utils/math.hpp"
#include "utils/memory.hpp"
#include "utils/metric_type.hpp"
#include "utils/quantization_type.hpp"
#include "utils/random.hpp"
#include "utils/thread_config.hpp"
namespace fs = std::filesystem;

namespace {

using u128 = unsigned __int128;

template <class T>
void put(std::ofstream &f, const T *p, size_t n) {
  f.write(reinterpret_cast<const char *>(p), static_cast<std::streamsize>(n * sizeof(T)));
}
template <class T>
void write_rows(const fs::path &p, const std::vector<T> &v, uint32_t dim) {  // fvecs / ivecs / bvecs
  std::ofstream f(p, std::ios::binary);
  for (size_t i = 0; i < v.size(); i += dim) {
    put(f, &dim, 1);
    put(f, v.data() + i, dim);
  }
}
template <class T>
void write_bin(const fs::path &p, const std::vector<T> &v, uint32_t rows, uint32_t dim) {  // [rows][dim] header
  std::ofstream f(p, std::ios::binary);
  put(f, &rows, 1);
  put(f, &dim, 1);
  put(f, v.data(), v.size());
}
template <class T>
bool same(const std::vector<T> &a, const std::vector<T> &b) {
  return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0);
}
// any value, often next to a power of two or to the ends of the type
uint64_t word(pbt::Case &c, int bits) {
  uint64_t top = bits == 64 ? ~0ULL : (1ULL << bits) - 1;
  uint64_t v;
  switch (c.raw(3)) {
    case 0: v = c.raw(64); break;
    case 1: v = (1ULL << c.raw(static_cast<uint64_t>(bits) - 1)) + c.raw(4) - 2; break;
    case 2: v = top - c.raw(4); break;
    default: v = pbt::Rng(c.seed()).next() >> c.raw(63); break;
  }
  return v & top;
}

// Exact squared distances: integer coordinates, so that single precision sums are exact.
std::vector<float> grid(pbt::Rng &r, size_t n, int width) {
  std::vector<float> v(n);
  for (auto &x : v) x = static_cast<float>(r.range(-width, width));
  return v;
}
double l2(const float *a, const float *b, size_t d) {
  double s = 0;
  for (size_t i = 0; i < d; ++i) s += (static_cast<double>(a[i]) - b[i]) * (static_cast<double>(a[i]) - b[i]);
  return s;
}

// One query's row of exact neighbours: the true nearest rows in order, then padding.
void check_gt_row(pbt::Case &c, const uint32_t *row, uint32_t topk, const float *q, const std::vector<float> &data,
                  uint32_t dim, const std::unordered_set<uint32_t> &gone) {
  std::vector<double> want;
  uint32_t n = static_cast<uint32_t>(data.size() / dim);
  for (uint32_t j = 0; j < n; ++j)
    if (!gone.count(j)) want.push_back(l2(q, data.data() + size_t{j} * dim, dim));
  std::sort(want.begin(), want.end());
  std::set<uint32_t> seen;
  for (uint32_t j = 0; j < topk; ++j) {
    if (j >= want.size()) {
      c.check(row[j] == static_cast<uint32_t>(-1), "slot ", j, " holds ", row[j], " though only ", want.size(), " rows exist");
      continue;
    }
    c.check(row[j] < n, "ground truth names row ", row[j], " of ", n);
    c.check(!gone.count(row[j]), "ground truth names the deleted row ", row[j]);
    c.check(seen.insert(row[j]).second, "ground truth names row ", row[j], " twice");
    double d = l2(q, data.data() + size_t{row[j]} * dim, dim);
    c.check(d == want[j], "ground truth slot ", j, " is at distance ", d, ", the exact one is ", want[j]);
  }
}

template <class T>
void bits_case(pbt::Case &c) {
  using U = std::make_unsigned_t<T>;
  constexpr int kBits = static_cast<int>(sizeof(T)) * 8 - (std::is_signed_v<T> ? 1 : 0);
  T x = static_cast<T>(word(c, kBits));
  u128 v = static_cast<U>(x);
  c.note("x", static_cast<uint64_t>(x));
  uint32_t fl = alaya::math::floor_log2(x), ce = alaya::math::ceil_log2(x);
  if (x == 0) {
    c.check(fl == 0 && ce == 0, "log2 of 0 is not the documented 0");
  } else {
    c.check((u128{1} << fl) <= v && v < (u128{1} << (fl + 1)), "floor_log2(", static_cast<uint64_t>(x), ") = ", fl);
    c.check((u128{1} << ce) >= v && (ce == 0 || (u128{1} << (ce - 1)) < v), "ceil_log2(", static_cast<uint64_t>(x), ") = ", ce);
  }
  c.check(alaya::math::is_power_of_two(x) == (std::popcount(static_cast<U>(x)) == 1), "is_power_of_two(", static_cast<uint64_t>(x), ")");
  if constexpr (std::is_signed_v<T>) {
    T neg = static_cast<T>(-x - 1);
    c.check(!alaya::math::is_power_of_two(neg), "is_power_of_two of a negative number");
  }
  // rounding, over arguments whose results the type can hold
  T d = static_cast<T>(word(c, kBits));
  u128 top = static_cast<u128>(std::numeric_limits<T>::max());
  if (d > 0 && v + static_cast<U>(d) - 1 <= top) {
    u128 q = static_cast<U>(alaya::math::ceil_div(x, d));
    u128 dd = static_cast<U>(d);
    c.check(q * dd >= v && (q == 0 || (q - 1) * dd < v), "ceil_div(", static_cast<uint64_t>(x), ", ", static_cast<uint64_t>(d), ") = ", static_cast<uint64_t>(q));
    c.label("rounding in range");
  }
  T zero = 0;
  bool refused = false;
  try {
    (void)alaya::math::ceil_div(x, zero);
  } catch (const std::invalid_argument &) {
    refused = true;
  }
  c.check(refused, "ceil_div by 0 is not refused");
  uint64_t al = 1ULL << c.raw(static_cast<uint64_t>(kBits) - 1);
  if (v + al - 1 <= top) {
    u128 r = static_cast<U>(alaya::math::round_up_pow2(x, al));
    c.check(r % al == 0 && r >= v && r - v < al, "round_up_pow2(", static_cast<uint64_t>(x), ", ", al, ") = ", static_cast<uint64_t>(r));
  }
  c.nontrivial(v > 2 && d > 1);
}

std::vector<uint32_t> labels(pbt::Rng &r, size_t n, uint32_t lim) {
  std::vector<uint32_t> all(lim), out;
  for (uint32_t i = 0; i < lim; ++i) all[i] = i;
  for (size_t i = 0; i < n; ++i) {
    size_t j = i + r.below(lim - i);
    std::swap(all[i], all[j]);
    out.push_back(all[i]);
  }
  return out;
}

}  // namespace

PBT(P24_bits, "argument above 2, divisor above 1", 20000, 400000) {
  switch (c.raw(4)) {
    case 0: bits_case<uint32_t>(c); break;
    case 1: bits_case<uint64_t>(c); break;
    case 2: bits_case<int32_t>(c); break;
    case 3: bits_case<int64_t>(c); break;
    default: bits_case<size_t>(c); break;
  }
}

PBT(P24_rounding, "a value that needs rounding", 15000, 300000) {
  uint64_t v = word(c, 62), d = word(c, 62);
  c.note("v", v);
  c.note("d", d);
  c.check(alaya::math::round_up_general(v, 0) == 0, "round_up_general by 0");
  if (d) {
    u128 want = (static_cast<u128>(v) + d - 1) / d * d;
    if (want <= ~0ULL) {
      c.check(alaya::math::round_up_general(v, d) == static_cast<uint64_t>(want), "round_up_general(", v, ", ", d, ")");
      c.check(alaya::laser::round_up_to_multiple(v, d) == static_cast<uint64_t>(want), "round_up_to_multiple(", v, ", ", d, ")");
    }
    c.check(alaya::laser::div_round_up(v, d) == static_cast<uint64_t>((static_cast<u128>(v) + d - 1) / d), "div_round_up(", v, ", ", d, ")");
    c.nontrivial(v % d != 0);
  }
  uint64_t w = std::min<uint64_t>(word(c, 31), 1ULL << 30);
  size_t l = alaya::laser::ceil_log2(w);
  c.check(w == 0 ? l == 0 : ((1ULL << l) >= w && (l == 0 || (1ULL << (l - 1)) < w)), "ceil_log2(", w, ") = ", l);
}

PBT(P24_recall, "some but not all returned ids are right", 6000, 100000) {
  pbt::Rng r(c.seed());
  uint32_t nq = static_cast<uint32_t>(c.size(1, 8)), topk = static_cast<uint32_t>(c.size(1, 20));
  uint32_t gtd = static_cast<uint32_t>(c.flip() ? topk : c.size(1, 30));
  uint32_t universe = std::max(topk, gtd) + static_cast<uint32_t>(c.raw(20));
  std::vector<uint32_t> res, gt;
  std::vector<std::vector<uint32_t>> rows;
  uint64_t hits = 0;
  for (uint32_t i = 0; i < nq; ++i) {
    auto a = labels(r, topk, universe), b = labels(r, gtd, universe);
    if (c.chance(1, 5)) b.assign(a.begin(), a.begin() + std::min<size_t>(a.size(), gtd)), b.resize(gtd, universe + 7);
    // padding ids mark missing ground truth; a result never contains one
    if (c.chance(1, 4))
      for (size_t k = r.below(gtd); k < gtd; ++k) b[k] = static_cast<uint32_t>(-1);
    std::set<uint32_t> s(b.begin(), b.end());
    for (auto x : a) hits += s.count(x);
    res.insert(res.end(), a.begin(), a.end());
    gt.insert(gt.end(), b.begin(), b.end());
    rows.push_back(a);
    if (c.chance(1, 3))
      for (int e = 0; e < 3; ++e) rows.back().push_back(b[r.below(gtd)]);  // beyond the top k: not counted
  }
  c.note("hits", hits);
  float want = static_cast<float>(static_cast<double>(hits) / (static_cast<double>(nq) * topk));
  float a = alaya::calc_recall(res.data(), gt.data(), nq, gtd, topk);
  float b = alaya::calc_recall(rows, gt.data(), nq, gtd, topk);
  c.check(std::fabs(a - want) <= 1e-6f, "recall of the flat result is ", a, ", the definition gives ", want);
  c.check(std::fabs(b - want) <= 1e-6f, "recall of the row results is ", b, ", the definition gives ", want);
  std::vector<uint64_t> res64(res.begin(), res.end()), gt64(gt.begin(), gt.end());
  if (c.flip()) {
    for (auto &x : res64) x |= 1ULL << 40;
    for (auto &x : gt64) x |= (r.flip() ? 1ULL << 40 : 1ULL << 41);
    uint64_t h = 0;
    for (uint32_t i = 0; i < nq; ++i) {
      std::set<uint64_t> s(gt64.begin() + i * gtd, gt64.begin() + (i + 1) * gtd);
      for (uint32_t j = 0; j < topk; ++j) h += s.count(res64[i * topk + j]);
    }
    float w = static_cast<float>(static_cast<double>(h) / (static_cast<double>(nq) * topk));
    float g = alaya::calc_recall(res64.data(), gt64.data(), nq, gtd, topk);
    c.check(std::fabs(g - w) <= 1e-6f, "recall over 64-bit ids is ", g, ", the definition gives ", w);
  }
  c.nontrivial(hits > 0 && hits < uint64_t{nq} * topk);
}

PBT(P24_ground_truth, "ties, deletions or more neighbours asked for than rows exist", 2500, 40000) {
  pbt::Rng r(c.seed());
  uint32_t dim = static_cast<uint32_t>(gen::simd_dim(c, 70)), n = static_cast<uint32_t>(c.size(1, 40));
  uint32_t nq = static_cast<uint32_t>(c.size(1, 5));
  uint32_t topk = static_cast<uint32_t>(c.size(1, c.flip() ? n + 5 : std::max<uint32_t>(n / 2, 1)));
  int width = static_cast<int>(c.pick({1, 3, 40}));
  auto data = grid(r, size_t{n} * dim, width), q = grid(r, size_t{nq} * dim, width);
  if (c.chance(1, 3)) std::copy_n(data.begin(), dim, q.begin());
  std::unordered_set<uint32_t> gone;
  bool del = c.flip();
  if (del)
    for (uint32_t j = 0; j < n; ++j)
      if (r.below(3) == 0) gone.insert(j);
  auto gt = alaya::find_exact_gt<float, float, uint32_t>(q, data, dim, topk, del ? &gone : nullptr);
  c.check(gt.size() == size_t{topk} * nq, "ground truth has ", gt.size(), " entries");
  for (uint32_t i = 0; i < nq; ++i) check_gt_row(c, gt.data() + size_t{i} * topk, topk, q.data() + size_t{i} * dim, data, dim, gone);
  if (topk + gone.size() > n) c.label("more asked for than there are");
  c.nontrivial(width < 5 || !gone.empty() || topk > n);
  // the computed truth has full recall against itself
  if (topk + gone.size() <= n) {
    float rc = alaya::calc_recall(gt.data(), gt.data(), nq, topk, topk);
    c.check(rc == 1.0f, "ground truth has recall ", rc, " against itself");
  }
  // malformed input gives nothing
  if (dim > 1) {
    auto bad = data;
    bad.pop_back();
    c.check(alaya::find_exact_gt<float, float, uint32_t>(q, bad, dim, topk).empty(), "a data array that is not whole rows is accepted");
    c.check(alaya::find_exact_gt<float, float, uint32_t>(bad, data, dim, topk).empty(), "a query array that is not whole rows is accepted");
  }
  c.check((alaya::find_exact_gt<float, float, uint32_t>({}, data, dim, topk).empty()), "no queries, but an answer");
}

PBT(P24_average, "several rows", 2000, 20000) {
  size_t rows = c.size(1, 20), cols = c.size(1, 12);
  pbt::Rng r(c.seed());
  std::vector<std::vector<double>> v(rows, std::vector<double>(cols));
  for (auto &row : v)
    for (auto &x : row) x = static_cast<double>(r.range(-1000, 1000)) / 4;
  auto a = alaya::horizontal_avg(v);
  c.check(a.size() == cols, "average has ", a.size(), " columns");
  for (size_t j = 0; j < cols; ++j) {
    double s = 0;
    for (auto &row : v) s += row[j];
    c.check(std::fabs(a[j] - s / static_cast<double>(rows)) < 1e-9, "column ", j, " averages to ", a[j], " instead of ", s / static_cast<double>(rows));
  }
  c.nontrivial(rows > 1);
}

PBT(P24_vector_math, "non-zero vector", 5000, 80000) {
  size_t dim = gen::simd_dim(c, 200);
  pbt::Rng r(c.seed());
  int style = static_cast<int>(c.pick({gen::kSmallInt, gen::kGauss, gen::kOneHot, gen::kConst, gen::kMixedScale, gen::kUnit}));
  std::vector<float> x(dim), y(dim);
  gen::fill(r, style, x.data(), dim);
  gen::fill(r, style, y.data(), dim);
  double xx = 0, yy = 0, xy = 0;
  for (size_t i = 0; i < dim; ++i) xx += double{x[i]} * x[i], yy += double{y[i]} * y[i], xy += double{x[i]} * y[i];
  c.assume(xx > 1e-3 && yy > 1e-3);
  c.nontrivial();
  float cd = alaya::cos_dist(x.data(), y.data(), dim);
  c.check(std::fabs(cd + xy / std::sqrt(xx * yy)) < 1e-4, "cosine distance ", cd, " instead of ", -xy / std::sqrt(xx * yy));
  gen::Exact<float> e(dim);
  std::copy(x.begin(), x.end(), e.get());
  alaya::normalize(e.get(), dim);
  double nn = 0;
  for (size_t i = 0; i < dim; ++i) {
    nn += double{e[i]} * e[i];
    double want = x[i] / std::sqrt(xx);
    c.check(std::fabs(e[i] - want) <= 1e-4 * std::max(1.0, std::fabs(want)) , "coordinate ", i, " normalised to ", e[i], " instead of ", want);
  }
  c.check(std::fabs(nn - 1) < 1e-3, "normalised vector has squared norm ", nn);
  std::vector<double> d(x.begin(), x.end());
  alaya::normalize(d.data(), dim);
}

PBT(P24_files, "several rows", 3000, 40000) {
  pbt::Rng r(c.seed());
  uint32_t rows = static_cast<uint32_t>(c.size(1, 30)), dim = static_cast<uint32_t>(c.size(1, 40));
  std::vector<float> f(size_t{rows} * dim);
  std::vector<int32_t> iv(f.size());
  std::vector<uint8_t> bv(f.size());
  for (auto &x : f) x = static_cast<float>(r.gauss());
  for (auto &x : iv) x = static_cast<int32_t>(r.next());
  for (auto &x : bv) x = static_cast<uint8_t>(r.next());
  auto p = c.dir() / "v";
  uint32_t n = 12345, d = 54321;
  std::vector<float> gf(c.raw(3));  // loaders replace what the vector held
  std::vector<int32_t> gi(c.raw(3));
  std::vector<uint8_t> gb(c.raw(3));
  auto shape = [&](const char *what) { c.check(n == rows && d == dim, what, " loads ", n, " x ", d, " instead of ", rows, " x ", dim); };
  int kind = static_cast<int>(c.raw(8));
  c.note("kind", kind);
  switch (kind) {
    case 0:
      write_rows(p, f, dim);
      alaya::load_fvecs(p, gf, n, d);
      shape("load_fvecs");
      c.check(same(gf, f), "load_fvecs returns other values");
      break;
    case 1:
      write_rows(p, iv, dim);
      alaya::load_ivecs(p, gi, n, d);
      shape("load_ivecs");
      c.check(same(gi, iv), "load_ivecs returns other values");
      break;
    case 2:
      write_rows(p, bv, dim);
      alaya::load_bvecs(p, gb, n, d);
      shape("load_bvecs");
      c.check(same(gb, bv), "load_bvecs returns other values");
      break;
    case 3:
      alaya::save_ivecs(p, iv.data(), rows, dim);
      alaya::load_gt(p, gi, n, d);
      shape("load_gt after save_ivecs");
      c.check(same(gi, iv), "load_gt returns other values than save_ivecs wrote");
      break;
    case 4:
      alaya::save_ivecs(p, f.data(), rows, dim);
      alaya::load_vecs(p, gf, n, d);
      shape("load_vecs after save_ivecs");
      c.check(same(gf, f), "load_vecs returns other values than save_ivecs wrote");
      break;
    case 5:
      write_bin(p, iv, rows, dim);
      alaya::load_gt(p, gi, n, d);
      shape("load_gt");
      c.check(same(gi, iv), "load_gt returns other values");
      break;
    case 6:
      write_bin(p, f, rows, dim);
      alaya::load_vecs(p, gf, n, d);
      shape("load_vecs");
      c.check(same(gf, f), "load_vecs returns other values");
      break;
    default: {
      struct Mat {
        size_t rows = 0, cols = 0;
        std::vector<float> v;
        Mat() = default;
        Mat(size_t a, size_t b) : rows(a), cols(b), v(a * b) {}
        float *data() { return v.data(); }
        float &operator()(size_t i, size_t j) { return v[i * cols + j]; }
      } m;
      std::cout.setstate(std::ios::failbit);
      if (kind == 7) {
        write_rows(p, f, dim);
        alaya::laser::load_vecs<float>(p.c_str(), m);
      } else {
        write_bin(p, f, rows, dim);
        alaya::laser::load_bin<float>(p.c_str(), m);
      }
      std::cout.clear();
      n = static_cast<uint32_t>(m.rows), d = static_cast<uint32_t>(m.cols);
      shape(kind == 7 ? "laser load_vecs" : "laser load_bin");
      c.check(same(m.v, f), "the LASER loader returns other values");
      c.check(alaya::laser::get_filesize(p.c_str()) == fs::file_size(p), "get_filesize");
      bool missing = false;
      try {
        auto q = (c.dir() / "none").string();
        kind == 7 ? alaya::laser::load_vecs<float>(q.c_str(), m) : alaya::laser::load_bin<float>(q.c_str(), m);
      } catch (const std::exception &) {
        missing = true;
      }
      c.check(missing, "loading a missing file is not refused");
    }
  }
  c.nontrivial(rows > 1);
}

PBT(P24_dataset, "cut to a maximum number of vectors or queries", 800, 10000) {
  pbt::Rng r(c.seed());
  uint32_t n = static_cast<uint32_t>(c.size(1, 40)), nq = static_cast<uint32_t>(c.size(1, 8)), dim = static_cast<uint32_t>(c.size(1, 20));
  uint32_t gtd = static_cast<uint32_t>(c.size(1, n));
  auto data = grid(r, size_t{n} * dim, 5), q = grid(r, size_t{nq} * dim, 5);
  auto gt = alaya::find_exact_gt<float, float, uint32_t>(q, data, dim, gtd);
  alaya::DatasetConfig cfg;
  cfg.name_ = "generated";
  cfg.dir_ = c.dir() / "sub" / "set";
  fs::create_directories(cfg.dir_);
  cfg.data_file_ = cfg.dir_ / "base.fvecs";
  cfg.query_file_ = cfg.dir_ / "query.fvecs";
  cfg.gt_file_ = cfg.dir_ / "gt.ivecs";
  write_rows(cfg.data_file_, data, dim);
  write_rows(cfg.query_file_, q, dim);
  write_rows(cfg.gt_file_, gt, gtd);
  cfg.max_data_num_ = c.flip() ? 0 : static_cast<uint32_t>(c.size(1, n + 3));
  cfg.max_query_num_ = c.flip() ? 0 : static_cast<uint32_t>(c.size(1, nq + 3));
  auto ds = alaya::load_dataset(cfg);
  uint32_t wn = cfg.max_data_num_ ? std::min(n, cfg.max_data_num_) : n, wq = cfg.max_query_num_ ? std::min(nq, cfg.max_query_num_) : nq;
  c.check(ds.name_ == cfg.name_, "the data set is named ", ds.name_);
  c.check(ds.data_num_ == wn && ds.query_num_ == wq && ds.dim_ == dim, "data set of ", ds.data_num_, " vectors and ", ds.query_num_,
          " queries of dimension ", ds.dim_, " instead of ", wn, ", ", wq, ", ", dim);
  c.check(same(ds.data_, std::vector<float>(data.begin(), data.begin() + size_t{wn} * dim)), "other vectors were loaded");
  c.check(same(ds.queries_, std::vector<float>(q.begin(), q.begin() + size_t{wq} * dim)), "other queries were loaded");
  c.check(ds.ground_truth_.size() == size_t{wq} * ds.gt_dim_, "ground truth of ", ds.ground_truth_.size(), " entries, ", ds.gt_dim_, " per query");
  c.check(ds.gt_dim_ >= std::min(gtd, wn), "ground truth of ", ds.gt_dim_, " per query");
  for (uint32_t i = 0; i < wq; ++i)
    check_gt_row(c, ds.ground_truth_.data() + size_t{i} * ds.gt_dim_, ds.gt_dim_, ds.queries_.data() + size_t{i} * dim, ds.data_, dim, {});
  c.nontrivial(wn < n || wq < nq);
  if (wn < n) c.label("vectors cut");
}

PBT(P24_random, "more than one number drawn", 4000, 60000) {
  int n = static_cast<int>(c.flip() ? c.size(1, 30) : c.size(1, 2000));
  int size = static_cast<int>(c.size(0, static_cast<uint64_t>(n)));
  std::mt19937 rng(static_cast<unsigned>(c.raw(1000000)));
  c.note("n", n);
  c.note("size", size);
  c.assume(size > 0);
  // The library draws neighbour candidates this way: distinct values below n. Values can only stay distinct when
  // pushing repeated draws up leaves them below n + first, which size <= n guarantees.
  gen::Exact<uint32_t> e(static_cast<size_t>(size));
  alaya::gen_random(rng, e.get(), size, n);
  std::set<uint32_t> s;
  for (int i = 0; i < size; ++i) {
    c.check(e[static_cast<size_t>(i)] < static_cast<uint32_t>(n), "value ", e[static_cast<size_t>(i)], " drawn below ", n);
    s.insert(e[static_cast<size_t>(i)]);
  }
  if (size <= n / 2) c.label("half or fewer");
  int lo = static_cast<int>(c.range(-100, 100)), hi = lo + static_cast<int>(c.raw(50));
  for (int k = 0; k < 5; ++k) {
    int v = alaya::rand_integer<int>(lo, hi), w = alaya::laser::rand_integer<int>(lo, hi);
    c.check(v >= lo && v <= hi, "rand_integer(", lo, ", ", hi, ") = ", v);
    c.check(w >= lo && w <= hi, "laser rand_integer(", lo, ", ", hi, ") = ", w);
  }
  int64_t sd = static_cast<int64_t>(c.raw(1u << 31));
  alaya::RandomGenerator g(sd), h(sd);
  for (int k = 0; k < 5; ++k) {
    int a = g.rand_int(), b = g.rand_int(hi - lo + 1);
    int64_t l = g.rand_int64();
    float f = g.rand_float();
    double d = g.rand_double();
    c.check(a >= 0 && b >= 0 && b <= hi - lo && l >= 0 && f >= 0 && f <= 1 && d >= 0 && d <= 1, "a random value left its range: ", a, " ", b, " ", l, " ", f, " ", d);
    c.check(h.rand_int() == a && h.rand_int(hi - lo + 1) == b && h.rand_int64() == l && h.rand_float() == f && h.rand_double() == d, "equal seeds gave different numbers");
  }
  c.nontrivial(size > 1);
}

PBT(P24_thread_limit, "the limit is configured", 3000, 30000) {
  uint32_t sys = alaya::system_thread_count();
  c.check(sys >= 1, "no threads");
  std::string v;
  bool set = !c.chance(1, 8);
  uint64_t num = 0;
  bool valid = false;
  if (set) {
    switch (c.raw(4)) {
      case 0: num = c.raw(sys + 3), valid = true; break;
      case 1: num = word(c, 64), valid = true; break;
      case 2: num = (c.raw(5) << 32) + c.raw(3), valid = true; break;
      case 3: v = c.pick({"", "abc", "4x", "0x", "-", " ", "1.5", "3 "}); break;
      default: num = c.raw(sys + 3), valid = true, v = c.pick({"0", "000", "+"}); break;
    }
    if (valid) v += std::to_string(num);
    setenv("ALAYA_MAX_THREADS", v.c_str(), 1);
  } else {
    unsetenv("ALAYA_MAX_THREADS");
  }
  c.note("value", set ? v : "(unset)");
  uint32_t want = valid && num > 0 ? static_cast<uint32_t>(std::min<uint64_t>(num, sys)) : sys;
  uint32_t got = alaya::configured_thread_limit();
  c.check(got == want, "limit ", got, " for \"", v, "\" on ", sys, " threads, expected ", want);
  uint32_t req = static_cast<uint32_t>(word(c, 32));
  uint32_t cap = alaya::cap_thread_count(req);
  c.check(cap == std::min(std::max(req, 1u), want), "request for ", req, " threads gives ", cap, " under a limit of ", want);
  unsetenv("ALAYA_MAX_THREADS");
  c.nontrivial(set);
}

PBT(P24_memory, "a block that is not a multiple of its alignment", 1500, 15000) {
  size_t n = c.flip() ? c.size(1, 300) : 1 + c.raw(20000);
  auto whole = [&](const void *p, size_t al, const char *what) {
    c.check(p != nullptr && reinterpret_cast<uintptr_t>(p) % al == 0, what, " is not aligned to ", al, " for ", n, " elements");
  };
  {
    alaya::AlignedAlloc<float> a;
    float *p = a.allocate(n), *q = a.allocate(n);
    whole(p, 64, "AlignedAlloc");
    std::memset(p, 1, n * sizeof(float));
    std::memset(q, 2, n * sizeof(float));
    for (size_t i = 0; i < n * sizeof(float); ++i) c.check(reinterpret_cast<char *>(p)[i] == 1, "two live blocks overlap");
    a.deallocate(p, n);
    a.deallocate(q, n);
    c.check(a.allocate(0) == nullptr, "an empty block");
    bool refused = false;
    try {
      (void)a.allocate(std::numeric_limits<size_t>::max() / 2);
    } catch (const std::bad_alloc &) {
      refused = true;
    }
    c.check(refused, "an impossible size is not refused");
  }
  {
    alaya::laser::memory::AlignedAllocator<uint16_t, 256> a;
    auto *p = a.allocate(n);
    whole(p, 256, "AlignedAllocator");
    std::memset(p, 1, n * 2);
    a.deallocate(p, n);
    bool refused = false;
    try {
      (void)a.allocate(std::numeric_limits<size_t>::max() / 2 + 2);
    } catch (const std::bad_alloc &) {
      refused = true;
    }
    c.check(refused, "an impossible size is not refused");
  }
  {
    auto *p = static_cast<char *>(alaya::laser::memory::align_allocate<64>(n, c.flip()));
    whole(p, 64, "align_allocate");
    for (size_t i = 0; i < n; ++i) c.check(p[i] == 0, "align_allocate returned memory that is not zero");
    alaya::laser::memory::align_free(p);
    auto *q = static_cast<char *>(alaya::alloc_64b(n));
    whole(q, 64, "alloc_64b");
    for (size_t i = 0; i < n; ++i) c.check(q[i] == 0, "alloc_64b returned memory that is not zero");
    alaya_aligned_free_impl(q);
    if (c.chance(1, 20)) {
      q = static_cast<char *>(alaya::alloc_2m(n));
      whole(q, 1 << 21, "alloc_2m");
      for (size_t i = 0; i < n; ++i) c.check(q[i] == 0, "alloc_2m returned memory that is not zero");
      alaya_aligned_free_impl(q);
    }
  }
  c.nontrivial(n * sizeof(float) % 64 != 0);
}

PBT(P24_array, "several elements", 1500, 15000) {
  namespace ld = alaya::laser::data;
  using Arr = ld::Array<float, std::vector<size_t>, alaya::laser::memory::AlignedAllocator<float, 64>>;
  size_t nd = c.size(1, 3), total = 1;
  std::vector<size_t> dims;
  for (size_t i = 0; i < nd; ++i) dims.push_back(c.size(c.chance(1, 10) ? 0 : 1, 12)), total *= dims.back();
  pbt::Rng r(c.seed());
  Arr a(dims), b(dims);
  std::vector<float> v(total);
  for (size_t i = 0; i < total; ++i) v[i] = a.data()[i] = static_cast<float>(r.gauss());
  auto p = c.dir() / "a";
  {
    std::ofstream f(p, std::ios::binary);
    a.save(f);
    a.save(f);
  }
  c.check(fs::file_size(p) == 2 * total * sizeof(float), "two arrays of ", total, " elements saved as ", fs::file_size(p), " bytes");
  {
    std::ifstream f(p, std::ios::binary);
    Arr skip(dims);
    skip.load(f);
    b.load(f);
    c.check(f.good(), "loading two arrays left the stream in error");
  }
  auto eq = [&](Arr &x) { return total == 0 || std::memcmp(x.data(), v.data(), total * sizeof(float)) == 0; };
  c.check(eq(b), "a saved array loads as another");
  Arr m(std::move(b));
  c.check(eq(m) && b.data() == nullptr, "moving an array lost its elements");
  Arr k;
  k = std::move(m);
  c.check(eq(k) && m.data() == nullptr, "move-assigning an array lost its elements");
  Arr old(std::vector<size_t>{3});
  old = std::move(k);
  c.check(eq(old), "move-assigning over an array lost its elements");
  for (size_t i = 0; i < total; ++i) c.check(old[i] == v[i] && old.at(i) == v[i], "element ", i);
  c.nontrivial(total > 1);
}

PBT(P24_names, "a known name", 1000, 5000) {
  std::string s = c.pick({"L2", "IP", "COS", "l2", "NONE", "", "COSINE", "ip ", "L"});
  auto m = alaya::kMetricMap[s];
  auto want = s == "L2" ? alaya::MetricType::L2 : s == "IP" ? alaya::MetricType::IP : s == "COS" ? alaya::MetricType::COS : alaya::MetricType::NONE;
  c.check(m == want, "metric \"", s, "\" maps to ", static_cast<int>(m));
  std::string q = c.pick({"NONE", "SQ8", "SQ4", "RABITQ"});
  auto t = alaya::kQuantizationType[q];
  c.check(alaya::kQuantizationType2str[t] == q, "quantization ", q, " is named ", std::string(alaya::kQuantizationType2str[t]));
  c.check(static_cast<int>(t) == (q == "NONE" ? 0 : q == "SQ8" ? 1 : q == "SQ4" ? 2 : 3), "quantization ", q, " has the stored code ", static_cast<int>(t));
  c.nontrivial(want != alaya::MetricType::NONE);
}
