// Shared generators for vectors.
#pragma once
#include <cfloat>
#include <memory>
#include "pbt.hpp"
namespace gen {

enum Style { kSmallInt, kGauss, kOneHot, kConst, kMixedScale, kTiny, kHuge, kUnit, kStyles };

inline const char *style_name(int s) {
  static const char *n[] = {"small-int", "gauss", "one-hot", "const", "mixed-scale", "tiny", "huge", "unit-interval"};
  return n[s];
}

inline void fill(pbt::Rng &r, int style, float *v, size_t n) {
  size_t hot = r.below(n ? n : 1);
  float cst = static_cast<float>(r.range(-3, 3));
  for (size_t i = 0; i < n; ++i) {
    switch (style) {
      case kSmallInt: v[i] = static_cast<float>(r.range(-8, 8)); break;
      case kGauss: v[i] = static_cast<float>(r.gauss()); break;
      case kOneHot: v[i] = i == hot ? 3.0f : 0.0f; break;
      case kConst: v[i] = cst; break;
      case kMixedScale: v[i] = static_cast<float>(r.gauss() * std::pow(10.0, static_cast<double>(r.range(-3, 3)))); break;
      case kTiny: v[i] = static_cast<float>(r.gauss() * 1e-12); break;
      case kHuge: v[i] = static_cast<float>(r.gauss() * 1e12); break;
      default: v[i] = static_cast<float>(r.unit()); break;
    }
  }
}

// A buffer of exactly n elements that starts `misalign` elements into its block, so that an access past the end is
// an access past the end of the heap block.
template <class T>
struct Exact {
  std::unique_ptr<char[]> block;
  T *p;
  explicit Exact(size_t n, size_t misalign = 0) : block(new char[(n + misalign) * sizeof(T)]) {
    p = reinterpret_cast<T *>(block.get()) + misalign;
  }
  T *get() { return p; }
  T &operator[](size_t i) { return p[i]; }
};

// dimensions around the widths of the vector registers and their tails
inline size_t simd_dim(pbt::Case &c, size_t cap) {
  switch (c.raw(3)) {
    case 0: return 1 + c.raw(std::min<size_t>(cap, 40) - 1);
    case 1: return std::min<size_t>(cap, 16 * (1 + c.raw(cap / 16)));
    case 2: {
      size_t base = 16 * (1 + c.raw(cap / 16)), d = base + c.raw(16);
      return std::min(cap, d > 8 ? d - 8 : d);
    }
    default: return 1 + c.raw(cap - 1);
  }
}
}  // namespace gen
