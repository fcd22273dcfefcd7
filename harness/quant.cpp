// Scalar quantizers and the spaces built on them.
#include <filesystem>
#include "gen.hpp"
#include "main.hpp"
#include "space/quant/sq4.hpp"
#include "space/quant/sq8.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
using namespace pbt;

namespace {
template <class T>
std::vector<T> gen_data(Rng &r, int style, size_t n, size_t dim) {
  std::vector<T> v(n * dim);
  std::vector<double> base(dim), spread(dim);
  for (size_t j = 0; j < dim; ++j) {
    base[j] = static_cast<double>(r.range(-50, 50));
    spread[j] = r.below(4) == 0 ? 0.0 : std::pow(10.0, static_cast<double>(r.range(-2, 2)));
  }
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < dim; ++j) {
      double x = 0;
      switch (style) {
        case 0: x = static_cast<double>(r.range(-8, 8)); break;
        case 1: x = r.gauss(); break;
        case 2: x = base[j] + spread[j] * r.gauss(); break;          // ranges differ between dimensions
        case 3: x = static_cast<double>(j % 2 ? r.range(-1000, 1000) : r.range(0, 1)); break;
        case 4: x = r.below(10) == 0 ? 1e6 * r.gauss() : r.gauss(); break;
        default: x = r.unit(); break;
      }
      v[i * dim + j] = static_cast<T>(x);
    }
  }
  return v;
}

template <class T>
struct Sq8 {
  using Q = alaya::SQ8Quantizer<T>;
  static constexpr unsigned kMax = 255;
  static size_t bytes(size_t d) { return d; }
  static unsigned code(const uint8_t *b, size_t i) { return b[i]; }
};
template <class T>
struct Sq4 {
  using Q = alaya::SQ4Quantizer<T>;
  static constexpr unsigned kMax = 15;
  static size_t bytes(size_t d) { return (d + 1) / 2; }
  static unsigned code(const uint8_t *b, size_t i) { return i % 2 ? b[i / 2] & 15U : b[i / 2] >> 4; }
};

template <class K, class T>
void quantizer_case(Case &c) {
  uint32_t dim = static_cast<uint32_t>(1 + c.raw(c.flip() ? 8 : 70));
  size_t n = 1 + c.raw(20);
  int style = static_cast<int>(c.raw(5));
  Rng r(c.seed());
  auto data = gen_data<T>(r, style, n, dim);
  c.note("dim ", dim, " rows ", n, " style ", style);
  c.nontrivial(n > 1 && dim > 1);
  c.label(dim % 2 ? "odd dim" : "even dim");
  typename K::Q q(dim);
  size_t split = c.raw(n);
  if (split) {
    q.fit(data.data(), split);
  }
  if (split < n) {
    q.fit(data.data() + split * dim, n - split);
  }
  std::vector<T> mn(dim), mx(dim);
  for (size_t j = 0; j < dim; ++j) {
    mn[j] = mx[j] = data[j];
    for (size_t i = 0; i < n; ++i) {
      mn[j] = std::min(mn[j], data[i * dim + j]);
      mx[j] = std::max(mx[j], data[i * dim + j]);
    }
    c.check(q.get_min()[j] == mn[j] && q.get_max()[j] == mx[j], "trained range of dimension ", j, " is [", q.get_min()[j],
            ", ", q.get_max()[j], "], the data spans [", mn[j], ", ", mx[j], "]");
  }
  // rows of the training set and vectors around and beyond its range
  size_t probes = 6;
  std::string path = c.sdir() + "/q.bin";
  {
    std::ofstream w(path, std::ios::binary);
    w.write("x", 1);
    q.save(w);
    w.write("tail", 4);
  }
  typename K::Q q2;
  {
    std::ifstream in(path, std::ios::binary);
    in.get();
    q2.load(in);
    char t[5] = {0};
    in.read(t, 4);
    c.check(std::string(t) == "tail", "loading a quantizer consumed a different number of bytes than saving it wrote");
  }
  typename K::Q q3(q), q4(std::move(typename K::Q(q))), q5;
  q5 = q;
  for (size_t p = 0; p < probes; ++p) {
    std::vector<T> x(dim);
    size_t row = r.below(n);
    for (size_t j = 0; j < dim; ++j) {
      switch (p) {
        case 0:
        case 1: x[j] = data[row * dim + j]; break;
        case 2: x[j] = static_cast<T>(mn[j] + (mx[j] - mn[j]) * r.unit()); break;
        case 3: x[j] = r.flip() ? mn[j] : mx[j]; break;
        case 4: x[j] = static_cast<T>(mn[j] - 1 - r.unit() * 1e5); break;
        default: x[j] = static_cast<T>(mx[j] + (r.flip() ? 1 : -1) * r.gauss() * 3); break;
      }
    }
    gen::Exact<uint8_t> e(K::bytes(dim)), f(K::bytes(dim));
    gen::Exact<T> xe(dim, 1);
    std::copy(x.begin(), x.end(), xe.get());
    q.encode(xe.get(), e.get());
    for (auto *o : {&q2, &q3, &q4, &q5}) {
      o->encode(xe.get(), f.get());
      c.check(std::equal(e.get(), e.get() + K::bytes(dim), f.get()), "a copied or reloaded quantizer encodes differently");
    }
    for (size_t j = 0; j < dim; ++j) {
      unsigned code = K::code(e.get(), j);
      double lo = static_cast<double>(mn[j]), hi = static_cast<double>(mx[j]), step = (hi - lo) / K::kMax;
      double v = std::min(std::max(static_cast<double>(x[j]), lo), hi), dec = lo + code * step;
      c.check(code <= K::kMax, "code ", code);
      // float arithmetic in the encoder may shift a boundary by a few ulps of the operands
      double slack = 1e-6 * (hi - lo) + (sizeof(T) > 4 ? 2e-7 : 0) * (std::fabs(v) + std::fabs(lo));
      c.check(std::fabs(dec - v) <= step + slack, "dimension ", j, " value ", x[j], " in [", lo, ", ", hi,
              "] decodes to ", dec, " (code ", code, ", step ", step, ")");
      if (hi == lo) {
        c.check(code == 0, "constant dimension encoded as ", code);
      } else if (x[j] >= mx[j]) {
        c.check(code == K::kMax, "the maximum is encoded as ", code);
      } else if (x[j] <= mn[j]) {
        c.check(code == 0, "the minimum is encoded as ", code);
      }
    }
    if (K::kMax == 15 && dim % 2) {
      c.check((e[dim / 2] & 15) == 0, "the unused half byte of an odd dimension is not zero");
    }
  }
  // the code never decreases when the value grows
  size_t j = r.below(dim);
  T lo = static_cast<T>(mn[j] - 2), hi = static_cast<T>(mx[j] + 2);
  unsigned prev = 0;
  for (int s = 0; s <= 40; ++s) {
    T v = static_cast<T>(lo + (static_cast<double>(hi) - static_cast<double>(lo)) * s / 40.0);
    unsigned code = q.quantize(v, mn[j], mx[j]);
    c.check(code >= prev, "code falls from ", prev, " to ", code, " at value ", v);
    prev = code;
  }
}

// A decoded vector, and per dimension the size of the terms it is the sum of (single-precision decoding rounds at that size).
struct Decoded {
  std::vector<double> v, m;
};

double decode_dist(alaya::MetricType metric, const Decoded &x, const Decoded &y, double &mag) {
  const auto &a = x.v, &b = y.v;
  double s = 0;
  mag = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    if (metric == alaya::MetricType::L2) {
      s += (a[i] - b[i]) * (a[i] - b[i]);
      mag += (std::fabs(a[i] - b[i]) + 1e-6 * (x.m[i] + y.m[i])) * (x.m[i] + y.m[i]);
    } else {
      s -= a[i] * b[i];
      mag += std::fabs(a[i]) * y.m[i] + std::fabs(b[i]) * x.m[i] + 1e-6 * x.m[i] * y.m[i];
    }
  }
  return s;
}

template <class K, class Space>
void space_case(Case &c, bool reload) {
  uint32_t dim = static_cast<uint32_t>(1 + c.raw(c.flip() ? 8 : 70));
  size_t n = 1 + c.raw(12);
  int style = static_cast<int>(c.raw(5));
  auto metric = c.pick({alaya::MetricType::L2, alaya::MetricType::IP, alaya::MetricType::COS});
  Rng r(c.seed());
  auto data = gen_data<float>(r, style, n + 4, dim);
  c.note("dim ", dim, " rows ", n, " style ", style, " metric ", static_cast<int>(metric), reload ? " reloaded" : "");
  c.nontrivial(n > 1 && dim > 1);
  c.label(dim % 2 ? "odd dim" : "even dim");
  Space s0(static_cast<uint32_t>(n + 2), dim, metric);
  s0.fit(data.data(), static_cast<uint32_t>(n));
  uint32_t extra = s0.insert(data.data() + n * dim);   // may lie outside the trained range
  c.check(extra == n, "insert returned id ", extra);
  Space s1;
  if (reload) {
    std::string p = c.sdir() + "/space.bin";
    s0.save(p);
    s1.load(p);
    s1.set_metric_function();
  }
  Space &s = reload ? s1 : s0;
  c.check(s.get_dim() == dim && s.get_data_size() == K::bytes(dim) && s.get_data_num() == n + 1, "dim/size/count wrong");
  auto q = s.get_quantizer();
  auto decode = [&](const uint8_t *b) {
    Decoded o{std::vector<double>(dim), std::vector<double>(dim)};
    for (size_t j = 0; j < dim; ++j) {
      double lo = q.get_min()[j], hi = q.get_max()[j];
      o.v[j] = lo + K::code(b, j) * (hi - lo) / K::kMax;
      o.m[j] = std::max(std::fabs(lo), std::fabs(hi)) + (hi - lo);
    }
    return o;
  };
  std::vector<Decoded> dec;
  for (size_t i = 0; i <= n; ++i) {
    dec.push_back(decode(s.get_data_by_id(static_cast<uint32_t>(i))));
    std::vector<uint8_t> e(K::bytes(dim));
    q.encode(data.data() + i * dim, e.data());
    c.check(std::equal(e.begin(), e.end(), s.get_data_by_id(static_cast<uint32_t>(i))), "stored code of row ", i,
            " is not the encoding of the row");
  }
  auto cmp = [&](const char *what, double got, const Decoded &a, const Decoded &b) {
    double mag, want = decode_dist(metric, a, b, mag);
    double tol = 6e-7 * std::sqrt(dim + 16.0) * mag * 2 + 1e-30;
    c.check(std::fabs(got - want) <= tol, what, " is ", got, ", the decoded vectors are ", want, " apart (tolerance ", tol,
            ")");
  };
  for (size_t t = 0; t < 8; ++t) {
    size_t i = r.below(n + 1), j = r.below(n + 1);
    cmp("get_distance", s.get_distance(static_cast<uint32_t>(i), static_cast<uint32_t>(j)), dec[i], dec[j]);
    auto qc = s.get_query_computer(static_cast<uint32_t>(i));
    cmp("distance from a stored item", qc(static_cast<uint32_t>(j)), dec[i], dec[j]);
  }
  for (size_t t = 1; t < 4; ++t) {
    const float *v = data.data() + (n + t) * dim;
    std::vector<uint8_t> e(K::bytes(dim));
    q.encode(v, e.data());
    auto dq = decode(e.data());
    auto qc = s.get_query_computer(v);
    for (size_t j = 0; j <= n; ++j) {
      cmp("distance from a query", qc(static_cast<uint32_t>(j)), dq, dec[j]);
    }
  }
}
using S8 = alaya::SQ8Space<>;
using S4 = alaya::SQ4Space<>;
}  // namespace

PBT(sq8_quantizer, "8-bit encoding of training rows, in-range, boundary and out-of-range vectors against the decoded "
    "value, incremental training, copies and save/load; non-trivial: more than one row and dimension", 40000, 1000000) {
  if (c.raw(3) == 3) {
    quantizer_case<Sq8<double>, double>(c);
  } else {
    quantizer_case<Sq8<float>, float>(c);
  }
}
PBT(sq4_quantizer, "as sq8_quantizer for 4-bit codes", 40000, 1000000) {
  if (c.raw(3) == 3) {
    quantizer_case<Sq4<double>, double>(c);
  } else {
    quantizer_case<Sq4<float>, float>(c);
  }
}
PBT(sq8_distance_is_decoded_distance, "distances an 8-bit space reports between stored items, and from queries, against "
    "the distance of the vectors the codes stand for, before and after save/load; non-trivial: several rows and dimensions",
    20000, 500000) { space_case<Sq8<float>, S8>(c, c.raw(1) != 0); }
PBT(sq4_distance_is_decoded_distance, "as sq8_distance_is_decoded_distance for 4-bit spaces", 20000, 500000) {
  space_case<Sq4<float>, S4>(c, c.raw(1) != 0);
}
