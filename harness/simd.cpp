// P01: every distance kernel, at every instruction-set level, computes the documented sum for every dimension.
#include "gen.hpp"
#include "index/graph/laser/space/l2.hpp"
#include "main.hpp"
#include "simd/distance_ip.hpp"
#include "simd/distance_l2.hpp"
#include "simd/laser_dispatch.hpp"

using namespace alaya::simd;
using pbt::Case;
using pbt::Rng;

namespace {
struct Named {
  const char *name;
  L2SqrFunc f;
};

void close(Case &c, const char *who, double got, double want, double mag, size_t dim) {
  double tol = 4e-7 * std::sqrt(static_cast<double>(dim) + 16) * mag + 1e-37;
  c.check(std::fabs(got - want) <= tol, who, " returned ", got, ", the sum is ", want, " (dim ", dim, ", tolerance ", tol,
          ")");
}
}  // namespace

PBT(float_kernels,
    "l2/ip over float32 at generic, AVX2, AVX-512, dispatched and public entry points against a double-precision sum; "
    "non-trivial: dim > 1 and the vectors differ",
    6000, 300000) {
  size_t dim = gen::simd_dim(c, 1100);
  int sx = static_cast<int>(c.raw(gen::kStyles - 1)), sy = static_cast<int>(c.raw(gen::kStyles - 1));
  size_t mis_x = c.raw(3), mis_y = c.raw(3);
  Rng r(c.seed());
  gen::Exact<float> x(dim, mis_x), y(dim, mis_y);
  gen::fill(r, sx, x.get(), dim);
  gen::fill(r, sy, y.get(), dim);
  c.note("dim ", dim, " x ", gen::style_name(sx), " y ", gen::style_name(sy));
  c.nontrivial(dim > 1 && !std::equal(x.get(), x.get() + dim, y.get()));
  c.label(dim % 16 ? "ragged tail" : "whole registers");
  double l2 = 0, ip = 0, ipm = 0, l2m = 0;
  for (size_t i = 0; i < dim; ++i) {
    double d = static_cast<double>(x[i]) - y[i];
    l2 += d * d;
    l2m += d * d;
    ip += static_cast<double>(x[i]) * y[i];
    ipm += std::fabs(static_cast<double>(x[i]) * y[i]);
  }
  bool exact = sx == gen::kSmallInt && sy == gen::kSmallInt;
  auto cmp = [&](const char *n, float got, double want, double mag) {
    if (exact) {
      c.check(static_cast<double>(got) == want, n, " on small integers returned ", got, " instead of ", want, " (dim ", dim,
              ")");
    } else {
      close(c, n, got, want, mag, dim);
    }
  };
  cmp("l2_sqr_generic", l2_sqr_generic(x.get(), y.get(), dim), l2, l2m);
  cmp("l2_sqr_avx2", l2_sqr_avx2(x.get(), y.get(), dim), l2, l2m);
  cmp("l2_sqr_avx512", l2_sqr_avx512(x.get(), y.get(), dim), l2, l2m);
  cmp("dispatched l2", get_l2_sqr_func()(x.get(), y.get(), dim), l2, l2m);
  cmp("l2_sqr", alaya::simd::l2_sqr<float, float>(x.get(), y.get(), dim), l2, l2m);
  cmp("laser l2_sqr", alaya::laser::space::l2_sqr(x.get(), y.get(), dim), l2, l2m);
  cmp("ip_sqr_generic", ip_sqr_generic(x.get(), y.get(), dim), -ip, ipm);
  cmp("ip_sqr_avx2", ip_sqr_avx2(x.get(), y.get(), dim), -ip, ipm);
  cmp("ip_sqr_avx512", ip_sqr_avx512(x.get(), y.get(), dim), -ip, ipm);
  cmp("dispatched ip", get_ip_sqr_func()(x.get(), y.get(), dim), -ip, ipm);
  cmp("ip_sqr", alaya::simd::ip_sqr<float, float>(x.get(), y.get(), dim), -ip, ipm);
  // identity and symmetry
  gen::Exact<float> x2(dim);
  std::copy(x.get(), x.get() + dim, x2.get());
  c.check(l2_sqr_avx2(x.get(), x2.get(), dim) == 0 && l2_sqr_avx512(x.get(), x2.get(), dim) == 0 &&
              l2_sqr_generic(x.get(), x2.get(), dim) == 0,
          "the distance of a vector to itself is not 0 (dim ", dim, ")");
  // squared norm of a single vector
  double n2 = 0;
  for (size_t i = 0; i < dim; ++i) {
    n2 += static_cast<double>(x[i]) * x[i];
  }
  if (sx != gen::kHuge) {
    cmp("laser l2_sqr_single generic", alaya::laser::simd::detail::l2_sqr_single_generic(x.get(), dim), n2, n2);
    cmp("laser l2_sqr_single avx2", alaya::laser::simd::detail::l2_sqr_single_avx2(x.get(), dim), n2, n2);
    cmp("laser l2_sqr_single avx512", alaya::laser::simd::detail::l2_sqr_single_avx512(x.get(), dim), n2, n2);
    cmp("laser l2_sqr_single", alaya::laser::space::l2_sqr_single(x.get(), dim), n2, n2);
  }
}

PBT(integer_and_double_vectors,
    "l2/ip over int8, uint8, int32 and double element types, computed with the element type's own values; "
    "non-trivial: dim > 1",
    1500, 60000) {
  size_t dim = gen::simd_dim(c, 300);
  Rng r(c.seed());
  int which = static_cast<int>(c.raw(3));
  c.nontrivial(dim > 1);
  auto run = [&](auto tag, auto make, const char *nm) {
    using T = decltype(tag);
    gen::Exact<T> x(dim), y(dim);
    double l2 = 0, ip = 0, ipm = 0, l2m = 0;
    for (size_t i = 0; i < dim; ++i) {
      x[i] = make();
      y[i] = make();
      double d = static_cast<double>(x[i]) - static_cast<double>(y[i]);
      l2 += d * d;
      // an element may be rounded to the distance type before it is subtracted
      l2m += std::pow(std::fabs(static_cast<double>(x[i])) + std::fabs(static_cast<double>(y[i])), 2);
      ip += static_cast<double>(x[i]) * static_cast<double>(y[i]);
      ipm += std::fabs(static_cast<double>(x[i]) * static_cast<double>(y[i]));
    }
    c.note("dim ", dim, " element ", nm);
    c.label(nm);
    close(c, nm, alaya::simd::l2_sqr<T, float>(x.get(), y.get(), dim), l2, l2m, dim * 4);
    close(c, nm, alaya::simd::ip_sqr<T, float>(x.get(), y.get(), dim), -ip, ipm, dim * 4);
  };
  switch (which) {
    case 0: run(static_cast<int8_t>(0), [&] { return static_cast<int8_t>(r.range(-128, 127)); }, "int8"); break;
    case 1: run(static_cast<uint8_t>(0), [&] { return static_cast<uint8_t>(r.range(0, 255)); }, "uint8"); break;
    case 2: run(static_cast<int32_t>(0), [&] { return static_cast<int32_t>(r.range(-100000, 100000)); }, "int32"); break;
    default: run(0.0, [&] { return r.gauss(); }, "double"); break;
  }
}

PBT(sq8_kernels,
    "l2/ip over 8-bit codes with generated per-dimension ranges, at every level, against the decoded values; "
    "non-trivial: dim > 1 and ranges differ between dimensions",
    5000, 200000) {
  size_t dim = gen::simd_dim(c, 600);
  Rng r(c.seed());
  int rs = static_cast<int>(c.raw(3));
  int cs = static_cast<int>(c.raw(2));
  gen::Exact<uint8_t> x(dim, c.raw(3)), y(dim, c.raw(3));
  gen::Exact<float> mn(dim), mx(dim);
  size_t hot = r.below(dim);
  double l2 = 0, ip = 0, l2m = 0, ipm = 0;
  for (size_t i = 0; i < dim; ++i) {
    mn[i] = rs == 0 ? 0.f : rs == 1 ? static_cast<float>(r.gauss()) : static_cast<float>(r.range(-100, 100));
    float w = rs == 0 ? 255.f : rs == 3 && r.below(3) == 0 ? 0.f : static_cast<float>(r.unit() * 5);
    mx[i] = mn[i] + w;
    x[i] = cs == 0 ? static_cast<uint8_t>(r.below(256)) : cs == 1 ? (i == hot ? 255 : 0) : static_cast<uint8_t>(r.below(2) * 255);
    y[i] = cs == 0 ? static_cast<uint8_t>(r.below(256)) : cs == 1 ? 0 : static_cast<uint8_t>(r.below(2) * 255);
    double s = (static_cast<double>(mx[i]) - mn[i]) / 255.0;
    double a = mn[i] + x[i] * s, b = mn[i] + y[i] * s;
    l2 += (x[i] * s - y[i] * s) * (x[i] * s - y[i] * s);
    ip += a * b;
    double m = std::max(std::fabs(mn[i]), std::fabs(mx[i]));
    ipm += m * m;
  }
  l2m = l2 * 4;
  c.note("dim ", dim, " ranges ", rs, " codes ", cs);
  c.nontrivial(dim > 1 && rs != 0);
  const uint8_t *X = x.get(), *Y = y.get();
  const float *A = mn.get(), *B = mx.get();
  close(c, "l2 sq8 generic", l2_sqr_sq8_generic(X, Y, dim, A, B), l2, l2m, dim);
  close(c, "l2 sq8 avx2", l2_sqr_sq8_avx2(X, Y, dim, A, B), l2, l2m, dim);
  close(c, "l2 sq8 avx512", l2_sqr_sq8_avx512(X, Y, dim, A, B), l2, l2m, dim);
  close(c, "l2 sq8 dispatched", get_l2_sqr_sq8_func()(X, Y, dim, A, B), l2, l2m, dim);
  close(c, "l2 sq8", alaya::simd::l2_sqr_sq8<float, float>(X, Y, dim, A, B), l2, l2m, dim);
  ipm *= 3;
  close(c, "ip sq8 generic", ip_sqr_sq8_generic(X, Y, dim, A, B), -ip, ipm, dim);
  close(c, "ip sq8 avx2", ip_sqr_sq8_avx2(X, Y, dim, A, B), -ip, ipm, dim);
  close(c, "ip sq8 avx512", ip_sqr_sq8_avx512(X, Y, dim, A, B), -ip, ipm, dim);
  close(c, "ip sq8 dispatched", get_ip_sqr_sq8_func()(X, Y, dim, A, B), -ip, ipm, dim);
  close(c, "ip sq8", alaya::simd::ip_sqr_sq8<float, float>(X, Y, dim, A, B), -ip, ipm, dim);
  // non-float range types use the generic formula
  std::vector<double> dm(A, A + dim), dM(B, B + dim);
  close(c, "l2 sq8 double", alaya::simd::l2_sqr_sq8<double, float>(X, Y, dim, dm.data(), dM.data()), l2, l2m, dim);
  close(c, "ip sq8 double", alaya::simd::ip_sqr_sq8<double, float>(X, Y, dim, dm.data(), dM.data()), -ip, ipm, dim);
}

PBT(sq4_kernels,
    "l2/ip over packed 4-bit codes (low nibble = even dimension), even and odd dimensions, at every level, against the "
    "decoded values; non-trivial: dim > 1 and ranges differ between dimensions",
    5000, 200000) {
  size_t dim = gen::simd_dim(c, 600);
  size_t bytes = (dim + 1) / 2;
  Rng r(c.seed());
  int rs = static_cast<int>(c.raw(3));
  int cs = static_cast<int>(c.raw(2));
  gen::Exact<uint8_t> x(bytes, c.raw(3)), y(bytes, c.raw(3));
  gen::Exact<float> mn(dim), mx(dim);
  size_t hot = r.below(dim);
  std::fill(x.get(), x.get() + bytes, 0);
  std::fill(y.get(), y.get() + bytes, 0);
  double l2 = 0, ip = 0, ipm = 0;
  for (size_t i = 0; i < dim; ++i) {
    mn[i] = rs == 0 ? 0.f : rs == 1 ? static_cast<float>(r.gauss()) : static_cast<float>(r.range(-100, 100));
    float w = rs == 0 ? 15.f : rs == 3 && r.below(3) == 0 ? 0.f : static_cast<float>(r.unit() * 5);
    mx[i] = mn[i] + w;
    unsigned a = cs == 0 ? r.below(16) : cs == 1 ? (i == hot ? 15 : 0) : r.below(2) * 15;
    unsigned b = cs == 0 ? r.below(16) : cs == 1 ? 0 : r.below(2) * 15;
    x[i / 2] |= static_cast<uint8_t>(a << (i % 2 ? 4 : 0));
    y[i / 2] |= static_cast<uint8_t>(b << (i % 2 ? 4 : 0));
    double s = (static_cast<double>(mx[i]) - mn[i]) / 15.0;
    l2 += (a * s - b * s) * (a * s - b * s);
    ip += (mn[i] + a * s) * (mn[i] + b * s);
    double m = std::max(std::fabs(mn[i]), std::fabs(mx[i]));
    ipm += m * m;
  }
  c.note("dim ", dim, " ranges ", rs, " codes ", cs);
  c.nontrivial(dim > 1 && rs != 0);
  c.label(dim % 2 ? "odd dim" : "even dim");
  const uint8_t *X = x.get(), *Y = y.get();
  const float *A = mn.get(), *B = mx.get();
  double l2m = l2 * 4;
  ipm *= 3;
  close(c, "l2 sq4 generic", l2_sqr_sq4_generic(X, Y, dim, A, B), l2, l2m, dim);
  close(c, "l2 sq4 avx2", l2_sqr_sq4_avx2(X, Y, dim, A, B), l2, l2m, dim);
  close(c, "l2 sq4 avx512", l2_sqr_sq4_avx512(X, Y, dim, A, B), l2, l2m, dim);
  close(c, "l2 sq4 dispatched", get_l2_sqr_sq4_func()(X, Y, dim, A, B), l2, l2m, dim);
  close(c, "l2 sq4", alaya::simd::l2_sqr_sq4<float, float>(X, Y, dim, A, B), l2, l2m, dim);
  close(c, "ip sq4 generic", ip_sqr_sq4_generic(X, Y, dim, A, B), -ip, ipm, dim);
  close(c, "ip sq4 avx2", ip_sqr_sq4_avx2(X, Y, dim, A, B), -ip, ipm, dim);
  close(c, "ip sq4 avx512", ip_sqr_sq4_avx512(X, Y, dim, A, B), -ip, ipm, dim);
  close(c, "ip sq4 dispatched", get_ip_sqr_sq4_func()(X, Y, dim, A, B), -ip, ipm, dim);
  close(c, "ip sq4", alaya::simd::ip_sqr_sq4<float, float>(X, Y, dim, A, B), -ip, ipm, dim);
  std::vector<double> dm(A, A + dim), dM(B, B + dim);
  close(c, "l2 sq4 double", alaya::simd::l2_sqr_sq4<double, float>(X, Y, dim, dm.data(), dM.data()), l2, l2m, dim);
  close(c, "ip sq4 double", alaya::simd::ip_sqr_sq4<double, float>(X, Y, dim, dm.data(), dM.data()), -ip, ipm, dim);
}

PBT(laser_kernels,
    "LASER accumulate/estimate/convert/rotate/range kernels at generic, AVX2, AVX-512 and dispatched level against plain "
    "loops over 64-multiple dimensions; non-trivial: every case",
    3000, 100000) {
  namespace L = alaya::laser::simd;
  namespace D = alaya::laser::simd::detail;
  size_t dim = 64 * (1 + c.raw(15));
  Rng r(c.seed());
  c.note("dim ", dim);
  c.nontrivial();
  // 4-bit look-up accumulation. Values stay small enough for the documented 16-bit accumulator.
  size_t ncb = dim / 4;
  unsigned lutmax = static_cast<unsigned>(std::min<size_t>(255, 65535 / ncb));
  gen::Exact<uint8_t> codes(ncb * 16), lut(ncb * 16);
  for (size_t i = 0; i < ncb * 16; ++i) {
    codes[i] = static_cast<uint8_t>(r.below(256));
    lut[i] = static_cast<uint8_t>(r.below(lutmax + 1));
  }
  std::vector<uint32_t> want(32, 0);
  for (size_t cb = 0; cb < ncb; ++cb) {
    const uint8_t *cc = codes.get() + cb * 16;
    for (size_t lane = 0; lane < 16; ++lane) {
      static const int order[16] = {0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15};
      want[order[lane]] += lut[cb * 16 + (cc[lane] & 15)];
      want[order[lane] + 16] += lut[cb * 16 + (cc[lane] >> 4)];
    }
  }
  auto acc = [&](const char *n, L::AccumulateFn f) {
    alignas(64) uint16_t res[32];
    std::fill(res, res + 32, 0xABCD);
    f(dim, codes.get(), lut.get(), res);
    for (int i = 0; i < 32; ++i) {
      c.check(res[i] == want[i], n, ": lane ", i, " is ", res[i], " instead of ", want[i], " (dim ", dim, ")");
    }
  };
  acc("accumulate generic", D::accumulate_impl_generic);
  acc("accumulate avx2", D::accumulate_impl_avx2);
  acc("accumulate avx512", D::accumulate_impl_avx512);
  acc("accumulate dispatched", L::get_accumulate_func());
  // distance estimate
  size_t np = 32 * (1 + c.raw(3));
  float sqr_y = static_cast<float>(r.unit() * 10), width = static_cast<float>(r.unit()), vl = static_cast<float>(r.gauss()),
        sqr_qr = static_cast<float>(r.unit() * 4);
  gen::Exact<float> res(np), tx(np), fd(np), fv(np);
  for (size_t i = 0; i < np; ++i) {
    res[i] = static_cast<float>(r.range(-2000, 2000));
    tx[i] = static_cast<float>(r.gauss());
    fd[i] = static_cast<float>(r.gauss());
    fv[i] = static_cast<float>(r.gauss());
  }
  auto app = [&](const char *n, L::AppDistFn f) {
    gen::Exact<float> o(np);
    f(np, sqr_y, width, vl, sqr_qr, res.get(), tx.get(), fd.get(), fv.get(), o.get());
    for (size_t i = 0; i < np; ++i) {
      double w = static_cast<double>(sqr_y) + tx[i] + static_cast<double>(fd[i]) * width * res[i] +
                 static_cast<double>(fv[i]) * vl + sqr_qr;
      double m = std::fabs(sqr_y) + std::fabs(tx[i]) + std::fabs(fd[i] * width * res[i]) + std::fabs(fv[i] * vl) +
                 std::fabs(sqr_qr);
      c.check(std::fabs(o[i] - w) <= 2e-6 * m + 1e-6, n, ": point ", i, " is ", o[i], " instead of ", w);
    }
  };
  app("appro_dist generic", D::appro_dist_impl_generic);
  app("appro_dist avx2", D::appro_dist_impl_avx2);
  app("appro_dist avx512", D::appro_dist_impl_avx512);
  app("appro_dist dispatched", L::get_appro_dist_func());
  // accumulator conversion: 2 * value - sumq over the non-negative 15-bit range
  size_t cnt = 32 * (1 + c.raw(2));
  int32_t sumq = static_cast<int32_t>(r.range(-5000, 60000));
  gen::Exact<uint16_t> u(cnt);
  for (size_t i = 0; i < cnt; ++i) {
    u[i] = static_cast<uint16_t>(r.below(65536));
  }
  auto conv = [&](const char *n, L::ConvertAccumFn f) {
    gen::Exact<float> o(cnt);
    f(cnt, u.get(), sumq, o.get());
    for (size_t i = 0; i < cnt; ++i) {
      c.check(o[i] == static_cast<float>(2 * static_cast<int32_t>(u[i]) - sumq), n, ": element ", i, " is ", o[i],
              " for ", u[i], " and ", sumq);
    }
  };
  conv("convert generic", D::convert_accum_to_float_generic);
  conv("convert avx2", D::convert_accum_to_float_avx2);
  conv("convert avx512", D::convert_accum_to_float_avx512);
  conv("convert dispatched", L::get_convert_func());
  // element-wise sign/scale loop: processes a prefix and says how long it was
  size_t rd = 1 + c.raw(200);
  gen::Exact<float> a(rd), b(rd);
  gen::fill(r, gen::kGauss, a.get(), rd);
  gen::fill(r, gen::kGauss, b.get(), rd);
  auto rot = [&](const char *n, L::RotateLoopFn f) {
    gen::Exact<float> o(rd);
    std::fill(o.get(), o.get() + rd, 77.f);
    size_t done = f(a.get(), b.get(), rd, o.get());
    c.check(done <= rd && rd - done < 16, n, " handled ", done, " of ", rd, " elements");
    for (size_t i = 0; i < rd; ++i) {
      float w = i < done ? a[i] * b[i] : 77.f;
      c.check(o[i] == w, n, ": element ", i, " is ", o[i], " instead of ", w);
    }
  };
  rot("rotate_loop generic", D::rotate_loop_generic);
  rot("rotate_loop avx2", D::rotate_loop_avx2);
  rot("rotate_loop avx512", D::rotate_loop_avx512);
  rot("rotate_loop dispatched", L::get_rotate_loop_func());
  // minimum and maximum
  float wl = a[0], wh = a[0];
  for (size_t i = 0; i < rd; ++i) {
    wl = std::min(wl, a[i]);
    wh = std::max(wh, a[i]);
  }
  auto rng = [&](const char *n, L::DataRangeFn f) {
    float lo = 0, hi = 0;
    f(a.get(), rd, lo, hi);
    c.check(lo == wl && hi == wh, n, " says [", lo, ", ", hi, "], the data lies in [", wl, ", ", wh, "] (", rd, " elements)");
  };
  rng("data_range generic", D::data_range_generic);
  rng("data_range avx2", D::data_range_avx2);
  rng("data_range avx512", D::data_range_avx512);
  rng("data_range dispatched", L::get_data_range_func());
}
