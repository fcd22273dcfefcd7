// Hadamard transforms, rotations, binary codes and the distance estimates made from them.
#include <set>
#include "gen.hpp"
#include "index/graph/laser/common.hpp"
#include "index/graph/laser/qg/qg_query.hpp"
#include "index/graph/laser/qg/qg_scanner.hpp"
#include "index/graph/laser/quantization/rabitq.hpp"
#include "index/graph/laser/utils/rotator.hpp"
#include "main.hpp"
#include "simd/fht.hpp"
#include "space/rabitq_space.hpp"
#include "utils/rabitq_utils/fastscan.hpp"
#include "utils/rabitq_utils/lut.hpp"
#include "utils/rabitq_utils/rotator.hpp"
using namespace pbt;
namespace S = alaya::simd;

namespace {
void wht(std::vector<double> &v) {
  for (size_t h = 1; h < v.size(); h *= 2) {
    for (size_t i = 0; i < v.size(); i += 2 * h) {
      for (size_t j = i; j < i + h; ++j) {
        double a = v[j], b = v[j + h];
        v[j] = a + b;
        v[j + h] = a - b;
      }
    }
  }
}
double norm2(const float *v, size_t n) {
  double s = 0;
  for (size_t i = 0; i < n; ++i) {
    s += static_cast<double>(v[i]) * v[i];
  }
  return s;
}
double dot(const float *a, const float *b, size_t n) {
  double s = 0;
  for (size_t i = 0; i < n; ++i) {
    s += static_cast<double>(a[i]) * b[i];
  }
  return s;
}
}  // namespace

PBT(hadamard, "every Hadamard transform (generic, AVX2, AVX-512, dispatched, by size, LASER's) of sizes 64..2048 against "
    "the transform computed in double precision; non-trivial: the input has several non-zero entries", 6000, 200000) {
  int log_n = static_cast<int>(6 + c.raw(5));
  size_t n = size_t{1} << log_n;
  int style = static_cast<int>(c.raw(gen::kStyles - 1));
  Rng r(c.seed());
  std::vector<float> in(n);
  gen::fill(r, style, in.data(), n);
  c.note("size ", n, " style ", gen::style_name(style));
  c.label(gen::style_name(style));
  c.nontrivial(style != gen::kOneHot && style != gen::kConst);
  std::vector<double> want(in.begin(), in.end());
  wht(want);
  double nrm = std::sqrt(norm2(in.data(), n));
  double l1 = 0;
  for (float f : in) {
    l1 += std::fabs(f);
  }
  double tol = 1.2e-7 * (log_n + 2) * l1 + 1e-30;
  (void)nrm;
  auto run = [&](const char *who, auto f) {
    gen::Exact<float> b(n, c.raw(1) ? 1 : 0);
    std::copy(in.begin(), in.end(), b.get());
    f(b.get());
    for (size_t i = 0; i < n; ++i) {
      c.check(std::fabs(b[i] - want[i]) <= tol, who, "(", n, "): element ", i, " is ", b[i], " instead of ", want[i]);
    }
  };
#define ALL(N)                                              \
  case N:                                                   \
    run("generic", S::fwht_generic_template<N>);            \
    run("avx2", S::helper_float_##N##_avx2);                \
    run("avx512", S::helper_float_##N##_avx512);            \
    run("dispatched", S::helper_float_##N);                 \
    run("laser table", helper_float_##N);                   \
    break;
  switch (log_n) { ALL(6) ALL(7) ALL(8) ALL(9) ALL(10) ALL(11) }
  run("fht_float", [&](float *b) { c.check(S::fht_float(b, log_n) == 0, "fht_float refuses size 2^", log_n); });
  run("laser portable", [&](float *b) { alaya::laser::detail::fht_float_portable(b, static_cast<size_t>(log_n)); });
  run("laser selected", [&](float *b) { alaya::laser::detail::select_fht_float(static_cast<size_t>(log_n))(b); });
  int bad = c.raw(1) ? static_cast<int>(12 + c.raw(10)) : static_cast<int>(c.raw(5));
  std::vector<float> keep = in;
  c.check(S::fht_float(keep.data(), bad) != 0 && keep == in, "fht_float accepted the unsupported size 2^", bad);
}

namespace {
template <class Rot>
void isometry(Case &c, const Rot &rotate, size_t dim, size_t padded, double rel, const char *who, Rng &r) {
  // two generated vectors, their inner product, and linearity
  std::vector<float> x(dim), y(dim), z(dim);
  int sx = static_cast<int>(c.raw(gen::kStyles - 1)), sy = static_cast<int>(c.raw(gen::kStyles - 1));
  gen::fill(r, sx, x.data(), dim);
  gen::fill(r, sy, y.data(), dim);
  for (size_t i = 0; i < dim; ++i) {
    z[i] = x[i] - 2 * y[i];
  }
  gen::Exact<float> rx(padded), ry(padded), rz(padded), xe(dim, 1);
  std::fill(rx.get(), rx.get() + padded, 1e30f);
  std::fill(ry.get(), ry.get() + padded, 1e30f);
  std::copy(x.begin(), x.end(), xe.get());
  rotate(xe.get(), rx.get());
  rotate(y.data(), ry.get());
  rotate(z.data(), rz.get());
  c.check(std::equal(x.begin(), x.end(), xe.get()), who, " changed its input");
  double nx = norm2(x.data(), dim), ny = norm2(y.data(), dim), nz = norm2(z.data(), dim);
  double mx = norm2(rx.get(), padded), my = norm2(ry.get(), padded);
  c.note("styles ", gen::style_name(sx), ", ", gen::style_name(sy));
  c.check(std::fabs(mx - nx) <= rel * nx + 1e-30, who, " maps squared norm ", nx, " to ", mx, " (dim ", dim, " -> ", padded, ")");
  c.check(std::fabs(my - ny) <= rel * ny + 1e-30, who, " maps squared norm ", ny, " to ", my, " (dim ", dim, " -> ", padded, ")");
  double d0 = dot(x.data(), y.data(), dim), d1 = dot(rx.get(), ry.get(), padded);
  c.check(std::fabs(d0 - d1) <= rel * std::sqrt(nx * ny) + 1e-30, who, " maps inner product ", d0, " to ", d1, " (dim ", dim,
          " -> ", padded, ")");
  double scale = std::sqrt(nx) + 2 * std::sqrt(ny) + std::sqrt(nz);
  for (size_t i = 0; i < padded; ++i) {
    double lin = static_cast<double>(rx[i]) - 2.0 * ry[i];
    c.check(std::fabs(lin - rz[i]) <= rel * scale + 1e-30, who, " is not linear at output ", i, ": ", lin, " vs ", rz[i]);
  }
  gen::Exact<float> again(padded);
  rotate(x.data(), again.get());
  c.check(std::equal(rx.get(), rx.get() + padded, again.get()), who, " is not a function of its input");
}
}  // namespace

PBT(rotations, "matrix rotations, Hadamard/Kac rotations (dim 64..4095) and LASER's Hadamard rotation (dim 33..2048): "
    "norms, inner products, linearity, repeatability, save/load; non-trivial: every case", 2500, 60000) {
  Rng r(c.seed());
  c.nontrivial();
  int kind = static_cast<int>(c.raw(2));
  std::string path = c.sdir() + "/rot.bin";
  auto reload = [&](auto &a, auto &b, size_t dim, size_t padded, const char *who) {
    {
      std::ofstream w(path, std::ios::binary);
      w.write("abc", 3);
      a.save(w);
      w.write("tail", 4);
    }
    std::ifstream in(path, std::ios::binary);
    in.ignore(3);
    b.load(in);
    char t[5] = {0};
    in.read(t, 4);
    c.check(std::string(t) == "tail", who, " loads a different number of bytes than it saves");
    std::vector<float> x(dim), p(padded), q(padded);
    gen::fill(r, gen::kGauss, x.data(), dim);
    a.rotate(x.data(), p.data());
    b.rotate(x.data(), q.data());
    c.check(p == q, who, " rotates differently after save/load (dim ", dim, ")");
  };
  if (kind == 0) {
    size_t dim = 1 + c.raw(90), padded = c.flip() ? dim : dim + c.raw(60);
    c.label("matrix");
    c.note("matrix rotation ", dim, " -> ", padded);
    auto a = alaya::choose_rotator<float>(dim, alaya::RotatorType::MatrixRotator, padded);
    auto b = alaya::choose_rotator<float>(dim, alaya::RotatorType::MatrixRotator, padded);
    c.check(a->size() == padded, "padded size");
    isometry(c, [&](const float *x, float *y) { a->rotate(x, y); }, dim, padded, 2e-5, "matrix rotation", r);
    reload(*a, *b, dim, padded, "matrix rotation");
  } else if (kind == 1) {
    size_t dim;
    switch (c.raw(2)) {
      case 0: dim = 64 + c.raw(200); break;
      case 1: dim = size_t{64} << c.raw(5); break;
      default: dim = 64 + c.raw(4031); break;
    }
    size_t padded = (dim + 63) / 64 * 64;
    c.label(padded == (padded & ~(padded - 1)) ? "power of two" : "two overlapping blocks");
    c.note("Hadamard/Kac rotation ", dim, " -> ", padded);
    auto a = alaya::choose_rotator<float>(dim, alaya::RotatorType::FhtKacRotator);
    auto b = alaya::choose_rotator<float>(dim, alaya::RotatorType::FhtKacRotator, padded);
    c.check(a->size() == padded, "padded size is ", a->size(), " for dim ", dim);
    isometry(c, [&](const float *x, float *y) { a->rotate(x, y); }, dim, padded, 2e-5, "Hadamard/Kac rotation", r);
    reload(*a, *b, dim, padded, "Hadamard/Kac rotation");
  } else {
    size_t dim = c.flip() ? 33 + c.raw(300) : 33 + c.raw(2015);
    size_t padded = 64;
    while (padded < dim) {
      padded *= 2;
    }
    uint64_t seed = c.raw(1000);
    c.label("laser");
    c.note("LASER rotation ", dim, " -> ", padded, " seed ", seed);
    alaya::laser::FHTRotator a(dim, seed), b(dim, seed + 1);
    isometry(c, [&](const float *x, float *y) { a.rotate(x, y); }, dim, padded, 2e-5, "LASER rotation", r);
    if (seed) {
      alaya::laser::FHTRotator a2(dim, seed);
      std::vector<float> x(dim), p(padded), q(padded);
      gen::fill(r, gen::kGauss, x.data(), dim);
      a.rotate(x.data(), p.data());
      a2.rotate(x.data(), q.data());
      c.check(p == q, "two LASER rotations with seed ", seed, " differ");
    }
    reload(a, b, dim, padded, "LASER rotation");
  }
}

PBT(rotation_sizes_refused, "rotation sizes outside the supported range are refused; non-trivial: every case", 200, 2000) {
  c.nontrivial();
  size_t dim = c.flip() ? 1 + c.raw(62) : 4096 + c.raw(5000);
  c.note("dim ", dim);
  bool threw = false;
  try {
    alaya::choose_rotator<float>(dim, alaya::RotatorType::FhtKacRotator);
  } catch (const std::invalid_argument &) {
    threw = true;
  }
  c.check(threw, "a Hadamard/Kac rotation of dimension ", dim, " was accepted");
  size_t ld = c.flip() ? 1 + c.raw(31) : 2049 + c.raw(3000);
  threw = false;
  try {
    alaya::laser::FHTRotator a(ld, 1);
  } catch (const std::invalid_argument &) {
    threw = true;
  }
  c.check(threw, "a LASER rotation of dimension ", ld, " was accepted");
  size_t pd = 64 + c.raw(500);
  if (pd % 64) {
    threw = false;
    try {
      alaya::choose_rotator<float>(64, alaya::RotatorType::FhtKacRotator, pd);
    } catch (const std::invalid_argument &) {
      threw = true;
    }
    c.check(threw, "padded dimension ", pd, " was accepted");
  }
}

PBT(packed_scan, "codes of 1..100 vectors packed and scanned through generated look-up tables, both code families, against "
    "table sums read off the unpacked bits; non-trivial: more than one code byte", 4000, 150000) {
  Rng r(c.seed());
  size_t n = 1 + c.raw(99);
  {
    size_t dim = 8 * (1 + c.raw(c.flip() ? 5 : 126));
    size_t bytes = dim / 8, blocks = (n + 31) / 32;
    c.note("dim ", dim, " vectors ", n);
    c.nontrivial(bytes > 1);
    gen::Exact<uint8_t> code(bytes * n), packed(blocks * dim * 4), lut(dim * 4);
    for (size_t i = 0; i < bytes * n; ++i) {
      code[i] = static_cast<uint8_t>(r.below(256));
    }
    unsigned lutmax = static_cast<unsigned>(std::min<size_t>(255, 65535 / (dim / 4)));
    for (size_t i = 0; i < dim * 4; ++i) {
      lut[i] = static_cast<uint8_t>(r.below(lutmax + 1));
    }
    std::vector<float> q(dim), flut(dim * 4);
    for (auto &f : q) {
      f = static_cast<float>(r.range(-20, 20));
    }
    alaya::fastscan::pack_codes(dim, code.get(), n, packed.get());
    alaya::fastscan::pack_lut(dim, q.data(), flut.data());
    for (size_t i = 0; i < dim / 4; ++i) {
      for (size_t j = 0; j < 16; ++j) {
        float w = 0;
        for (size_t b = 0; b < 4; ++b) {
          w += (j >> (3 - b) & 1) ? q[i * 4 + b] : 0.f;
        }
        c.check(flut[i * 16 + j] == w, "look-up table entry ", i, "/", j, " is ", flut[i * 16 + j], " instead of ", w);
      }
    }
    for (size_t b = 0; b < blocks; ++b) {
      alignas(64) uint16_t res[32], res2[32];
      std::fill(res, res + 32, 0xABCD);
      std::fill(res2, res2 + 32, 0xABCD);
      alaya::fastscan::accumulate(packed.get() + b * dim * 4, lut.get(), res, dim);
      alaya::fastscan::detail::accumulate_scalar(packed.get() + b * dim * 4, lut.get(), res2, dim);
      for (size_t v = 0; v < 32; ++v) {
        uint32_t want = 0;
        for (size_t i = 0; i < dim / 4; ++i) {
          uint8_t byte = b * 32 + v < n ? code[(b * 32 + v) * bytes + i / 2] : 0;
          unsigned nib = i % 2 ? byte & 15U : byte >> 4;
          want += lut[i * 16 + nib];
        }
        c.check(res[v] == want, "scan of vector ", b * 32 + v, " of ", n, " gives ", res[v], " instead of ", want, " (dim ",
                dim, ")");
        c.check(res2[v] == want, "scalar scan of vector ", b * 32 + v, " of ", n, " gives ", res2[v], " instead of ", want,
                " (dim ", dim, ")");
      }
      // the fused estimate is the formula applied to the sums
      alignas(64) float fa[32], fr[32], est[32];
      float ga = static_cast<float>(r.gauss()), ld = static_cast<float>(r.unit()), lb = static_cast<float>(r.gauss());
      for (int v = 0; v < 32; ++v) {
        fa[v] = static_cast<float>(r.gauss());
        fr[v] = static_cast<float>(r.gauss());
      }
      alaya::fastscan::accumulate_and_estimate_distances(packed.get() + b * dim * 4, lut.get(), fa, fr, ga, ld, lb, est, dim);
      for (int v = 0; v < 32; ++v) {
        double want = static_cast<double>(fa[v]) + ga + static_cast<double>(fr[v]) * (static_cast<double>(ld) * res[v] + lb);
        double mag = std::fabs(fa[v]) + std::fabs(ga) + std::fabs(fr[v]) * (ld * res[v] + std::fabs(lb));
        c.check(std::fabs(est[v] - want) <= 1e-6 * mag + 1e-30, "estimate ", v, " is ", est[v], " instead of ", want);
      }
    }
  }
  {
    size_t dim = 64 * (1 + c.raw(15)), words = dim / 64, blocks = (n + 31) / 32;
    std::vector<int> bits(n * dim);
    for (auto &b : bits) {
      b = static_cast<int>(r.below(2));
    }
    gen::Exact<uint64_t> bin(n * words);
    gen::Exact<uint8_t> packed(blocks * dim * 4), bq(dim), lut(dim * 4);
    alaya::laser::space::pack_binary(bits.data(), bin.get(), n * dim);
    alaya::laser::pack_codes(dim, bin.get(), n, packed.get());
    for (size_t i = 0; i < dim; ++i) {
      bq[i] = static_cast<uint8_t>(r.below(64));
    }
    alaya::laser::pack_lut_impl(dim, bq.get(), lut.get());
    for (size_t b = 0; b < blocks; ++b) {
      alignas(64) uint16_t res[32];
      alaya::laser::simd::get_accumulate_func()(dim, packed.get() + b * dim * 4, lut.get(), res);
      for (size_t v = 0; v < 32 && b * 32 + v < n; ++v) {
        uint32_t want = 0;
        for (size_t i = 0; i < dim; ++i) {
          want += bits[(b * 32 + v) * dim + i] ? bq[i] : 0;
        }
        c.check(res[v] == want, "LASER scan of vector ", b * 32 + v, " of ", n, " gives ", res[v], " instead of ", want,
                " (dim ", dim, ")");
      }
    }
    std::vector<uint64_t> pc(bin.get(), bin.get() + words);
    size_t ones = 0;
    for (size_t i = 0; i < dim; ++i) {
      ones += static_cast<size_t>(bits[i]);
    }
    c.check(alaya::laser::space::popcount(dim, pc.data()) == ones, "popcount");
  }
}

namespace {
void estimate_case(Case &c, size_t dim) {
  using Space = alaya::RaBitQSpace<>;
  Rng r(c.seed());
  int style = static_cast<int>(c.pick({gen::kGauss, gen::kGauss, gen::kSmallInt, gen::kUnit, gen::kMixedScale}));
  auto metric = c.pick({alaya::MetricType::L2, alaya::MetricType::IP, alaya::MetricType::COS});
  auto type = c.chance(1, 3) && dim < 200 ? alaya::RotatorType::MatrixRotator : alaya::RotatorType::FhtKacRotator;
  size_t nn = 1 + c.raw(31);
  size_t n = nn + 2;
  std::vector<float> data(n * dim);
  for (size_t i = 0; i < n; ++i) {
    gen::fill(r, style, &data[i * dim], dim);
  }
  if (c.chance(1, 4)) {  // a neighbour equal to the centre
    std::copy(&data[0], &data[dim], &data[dim]);
  }
  if (metric == alaya::MetricType::COS) {
    for (size_t i = 0; i < n; ++i) {
      float s = static_cast<float>(1 / std::sqrt(norm2(&data[i * dim], dim) + 1e-12));
      for (size_t j = 0; j < dim; ++j) {
        data[i * dim + j] *= s;
      }
    }
  }
  bool reload = c.flip();
  c.note("dim ", dim, " neighbours ", nn, " metric ", static_cast<int>(metric), " style ", gen::style_name(style),
         type == alaya::RotatorType::MatrixRotator ? " matrix" : " hadamard", reload ? " reloaded" : "");
  c.nontrivial(nn > 1);
  Space s0(static_cast<uint32_t>(n), dim, metric, alaya::RocksDBConfig::default_config(), type);
  s0.fit(data.data(), static_cast<uint32_t>(n));
  s0.set_ep(1);
  std::vector<alaya::Neighbor<uint32_t, float>> nei;
  for (size_t i = 0; i < nn; ++i) {
    nei.emplace_back(static_cast<uint32_t>(1 + i), 0.f);
  }
  s0.update_nei(0, nei);
  Space s1;
  if (reload) {
    std::string p = c.sdir() + "/rb.bin";
    s0.save(p);
    s1.load(p);
    c.check(s1.get_dim() == dim && s1.get_data_num() == n && s1.get_ep() == 1 && s1.get_capacity() == n, "reloaded header");
  }
  Space &s = reload ? s1 : s0;
  size_t pd = s.get_padded_dim();
  std::vector<float> q(dim);
  size_t self = c.chance(1, 3) ? 1 + r.below(nn) : 0;
  if (self) {
    std::copy(&data[self * dim], &data[self * dim] + dim, q.begin());
  } else {
    gen::fill(r, style, q.data(), dim);
    if (metric == alaya::MetricType::COS) {
      float sc = static_cast<float>(1 / std::sqrt(norm2(q.data(), dim) + 1e-12));
      for (auto &f : q) {
        f *= sc;
      }
    }
  }
  auto qc = s.get_query_computer(q.data());
  qc.load_centroid(0);
  std::vector<float> rq(pd), rc(pd), ro(pd);
  s.rotate_vec(q.data(), rq.data());
  s.rotate_vec(&data[0], rc.data());
  double exact = 0, exmag = 0;
  for (size_t j = 0; j < dim; ++j) {
    double a = q[j], b = data[j];
    exact += metric == alaya::MetricType::L2 ? (a - b) * (a - b) : -a * b;
    exmag += metric == alaya::MetricType::L2 ? (a - b) * (a - b) : std::fabs(a * b);
  }
  c.check(std::fabs(qc.get_exact_qr_c_dist() - exact) <= 1e-5 * exmag + 1e-9, "distance to the centre is ",
          qc.get_exact_qr_c_dist(), " instead of ", exact);
  // the widest look-up entry decides the resolution of the 8-bit table
  double lo = 0, hi = 0;
  for (size_t i = 0; i < pd; i += 4) {
    double neg = 0, pos = 0;
    for (size_t j = i; j < i + 4; ++j) {
      (rq[j] < 0 ? neg : pos) += rq[j];
    }
    lo = std::min(lo, neg);
    hi = std::max(hi, pos);
  }
  double delta = (hi - lo) / 255;
  for (size_t i = 0; i < nn; ++i) {
    c.check(qc.get_edges()[i] == 1 + i, "neighbour ", i, " is ", qc.get_edges()[i]);
    s.rotate_vec(&data[(1 + i) * dim], ro.data());
    double rr = 0, yr = 0, yqc = 0, rcdot = 0, yr_abs = 0, yqc_abs = 0, close_to_zero = 0;
    for (size_t j = 0; j < pd; ++j) {
      float res = ro[j] - rc[j];
      double y = res > 0 ? 0.5 : -0.5;
      rr += static_cast<double>(res) * res;
      yr += y * res;
      yr_abs += std::fabs(res) * 0.5;
      yqc += y * (static_cast<double>(rq[j]) - rc[j]);
      yqc_abs += 0.5 * (std::fabs(rq[j]) + std::fabs(rc[j]));
      rcdot += static_cast<double>(res) * rc[j];
      close_to_zero += std::fabs(res) < 1e-6 * (std::fabs(ro[j]) + std::fabs(rc[j])) ? 1 : 0;
    }
    (void)close_to_zero;
    double ratio = yr == 0 ? 0 : rr / yr;
    double est = qc(i), want, mag;
    if (metric == alaya::MetricType::L2) {
      want = rr + exact - 2 * ratio * yqc;
      mag = rr + exmag + 2 * ratio * yqc_abs;
      mag += 2 * ratio * yqc_abs;
    } else {
      want = 1 - rcdot + exact - ratio * yqc;
      mag = 1 + std::fabs(rcdot) + exmag + ratio * yqc_abs;
      mag += std::sqrt(rr) * std::sqrt(norm2(rc.data(), pd));
    }
    double f_rescale = (metric == alaya::MetricType::L2 ? 2 : 1) * ratio;
    double tol = f_rescale * delta * 0.51 * static_cast<double>(pd) / 4 + 4e-5 * mag + 1e-6;
    c.check(std::fabs(est - want) <= tol, "estimate for neighbour ", i, " is ", est, ", the formula gives ", want,
            " (tolerance ", tol, ")");
    if (self == 1 + i && metric == alaya::MetricType::L2) {
      c.label("query equals neighbour");
      c.check(std::fabs(est) <= tol, "the estimated distance of a neighbour to itself is ", est, " (tolerance ", tol, ")");
    }
  }
}
}  // namespace

PBT(rabitq_estimate, "distance estimates of 1..32 neighbours of a node for generated queries (also after save/load) against "
    "the estimator's formula over the rotated vectors, within half a look-up step per table; also zero distance to itself; "
    "non-trivial: several neighbours", 3000, 80000) {
  estimate_case(c, c.flip() ? 64 + c.raw(200) : 64 + c.raw(960));
}

PBT(rabitq_estimate_high_dim, "as rabitq_estimate, for 1025..4000 dimensions; non-trivial: several neighbours", 300, 6000) {
  estimate_case(c, 1025 + c.raw(3000 - 25));
}

PBT(laser_estimate, "LASER's estimated distances of a block of neighbours against its formula on the rotated vectors, using "
    "the quantized query; non-trivial: several neighbours", 2000, 60000) {
  using alaya::laser::RowMatrix;
  Rng r(c.seed());
  size_t dim = c.flip() ? 33 + c.raw(400) : 33 + c.raw(2015), pd = 64;
  while (pd < dim) {
    pd *= 2;
  }
  size_t nn = 32 * (1 + c.raw(2));
  int style = static_cast<int>(c.pick({gen::kGauss, gen::kGauss, gen::kSmallInt, gen::kUnit, gen::kMixedScale, gen::kOneHot}));
  c.note("dim ", dim, " neighbours ", nn, " style ", gen::style_name(style));
  c.label(gen::style_name(style));
  c.nontrivial();
  alaya::laser::FHTRotator rot(dim, 1 + c.raw(50));
  std::vector<float> cen(dim), q(dim);
  gen::fill(r, gen::kGauss, cen.data(), dim);
  gen::fill(r, style, q.data(), dim);
  RowMatrix<float> rd(static_cast<long>(nn), static_cast<long>(pd)), rc(1, static_cast<long>(pd));
  rot.rotate(cen.data(), &rc(0, 0));
  std::vector<float> data(nn * dim);
  for (size_t i = 0; i < nn; ++i) {
    gen::fill(r, gen::kGauss, &data[i * dim], dim);
    rot.rotate(&data[i * dim], &rd(static_cast<long>(i), 0));
  }
  RowMatrix<float> orig = rd;
  gen::Exact<uint8_t> code(pd * nn / 8);
  std::vector<float> fac(3 * nn);
  alaya::laser::rabitq_codes(rd, rc, code.get(), &fac[0], &fac[nn], &fac[2 * nn]);
  alaya::laser::QGScanner scan(pd, nn);
  alaya::laser::QGQuery qq(q.data(), pd);
  qq.query_prepare(rot, scan);
  std::vector<float> rq(pd);
  rot.rotate(q.data(), rq.data());
  double sy = 0;
  for (size_t j = 0; j < dim; ++j) {
    sy += std::pow(static_cast<double>(q[j]) - cen[j], 2);
  }
  float sqr_qr = static_cast<float>(r.unit());
  std::vector<float> out(nn);
  scan.scan_neighbors(out.data(), qq.lut().data(), static_cast<float>(sy), qq.lower_val(), qq.width(), sqr_qr, qq.sumq(),
                      code.get(), fac.data());
  // the code every coordinate may get: nearest step, or the documented half-step bias; ambiguous when rounding decides
  std::vector<double> biased(pd), plain(pd);
  double amb_b = 0, amb_p = 0;
  const double lo = qq.lower_val(), w = qq.width();
  for (size_t j = 0; j < pd && w > 0; ++j) {
    double x = (rq[j] - lo) / w;
    auto near_half = [](double v) { return std::fabs(v - std::floor(v) - 0.5) < 1e-3; };
    biased[j] = std::min(63.0, std::floor(x + 1.0));
    plain[j] = std::floor(x + 0.5);
    amb_b += near_half(x + 0.5) || biased[j] == 63.0 ? 1 : 0;
    amb_p += near_half(x) ? 1 : 0;
  }
  for (size_t i = 0; i < nn; ++i) {
    double rr = 0, sr = 0, sc = 0, sb = 0, sp = 0, sabs = 0;
    for (size_t j = 0; j < pd; ++j) {
      float res = orig(static_cast<long>(i), static_cast<long>(j)) - rc(0, static_cast<long>(j));
      double s = res > 0 ? 1 : -1;
      rr += static_cast<double>(res) * res;
      sr += s * res;
      sc += s * rc(0, static_cast<long>(j));
      sb += s * (lo + w * biased[j]);
      sp += s * (lo + w * plain[j]);
      sabs += std::fabs(rq[j]) + std::fabs(lo) + std::fabs(rc(0, static_cast<long>(j)));
    }
    double f = 2 * rr / sr, base = sy + sqr_qr + rr;
    double want_b = base - f * (sb - sc), want_p = base - f * (sp - sc);
    double round = 1e-4 * (sy + rr + f * sabs) + 1e-6;
    double err_b = std::fabs(out[i] - want_b) - f * w * amb_b, err_p = std::fabs(out[i] - want_p) - f * w * amb_p;
    c.check(std::min(err_b, err_p) <= round, "estimate for neighbour ", i, " is ", out[i], ", the formula gives ", want_b,
            " with and ", want_p, " without the half-step bias; steps that rounding may decide: ", amb_b, " and ", amb_p,
            " of ", f * w, ", rounding ", round);
  }
}
