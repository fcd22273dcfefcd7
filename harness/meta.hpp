// Generators and reference semantics for metadata records and filters.
#pragma once
#include <cmath>
#include <limits>
#include <map>
#include <sstream>
#include "pbt.hpp"
#include "utils/metadata_filter.hpp"
#include "utils/scalar_data.hpp"

namespace meta {
using alaya::FilterCondition;
using alaya::FilterOp;
using alaya::LogicOp;
using alaya::MetadataFilter;
using alaya::MetadataMap;
using alaya::MetadataValue;
using alaya::ScalarData;

inline std::string show(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s.substr(0, 60)) {
    if (ch >= 32 && ch < 127) {
      o += static_cast<char>(ch);
    } else {
      char b[8];
      std::snprintf(b, sizeof b, "\\x%02x", ch);
      o += b;
    }
  }
  return o + (s.size() > 60 ? "\"..." : "\"");
}
inline std::string show(const MetadataValue &v) {
  char b[64];
  switch (v.index()) {
    case 0: std::snprintf(b, sizeof b, "%lld", static_cast<long long>(std::get<int64_t>(v))); return b;
    case 1: std::snprintf(b, sizeof b, "%.17gd", std::get<double>(v)); return b;
    case 2: return show(std::get<std::string>(v));
    default: return std::get<bool>(v) ? "true" : "false";
  }
}
inline std::string show(const MetadataMap &m) {
  std::map<std::string, MetadataValue> s(m.begin(), m.end());
  std::string o = "{";
  for (auto &[k, v] : s) {
    o += show(k) + ":" + show(v) + " ";
  }
  return o + "}";
}
inline std::string show(const ScalarData &d) {
  return "[" + show(d.item_id) + " " + show(d.document) + " " + show(d.metadata) + "]";
}
inline std::string show(const FilterCondition &c) {
  static const char *n[] = {"==", "!=", ">", ">=", "<", "<=", "in", "not in", "contains"};
  std::string o = show(c.field) + " " + n[static_cast<int>(c.op)] + " ";
  if (c.op == FilterOp::IN_SET || c.op == FilterOp::NOT_IN_SET) {
    o += "(";
    for (auto &v : c.values) {
      o += show(v) + " ";
    }
    return o + ")";
  }
  return o + show(c.value);
}
inline std::string show(const MetadataFilter &f) {
  static const char *n[] = {"AND", "OR", "NOT"};
  std::string o = std::string(n[static_cast<int>(f.logic_op)]) + "(";
  for (auto &c : f.conditions) {
    o += show(c) + "; ";
  }
  for (auto &s : f.sub_filters) {
    o += show(*s) + "; ";
  }
  return o + ")";
}

// bit-identical values
inline bool same(const MetadataValue &a, const MetadataValue &b) {
  if (a.index() != b.index()) {
    return false;
  }
  if (a.index() == 1) {
    double x = std::get<double>(a), y = std::get<double>(b);
    return std::memcmp(&x, &y, sizeof x) == 0;
  }
  return a == b;
}
inline bool same(const MetadataMap &a, const MetadataMap &b) {
  if (a.size() != b.size()) {
    return false;
  }
  for (auto &[k, v] : a) {
    auto it = b.find(k);
    if (it == b.end() || !same(v, it->second)) {
      return false;
    }
  }
  return true;
}
inline bool same(const ScalarData &a, const ScalarData &b) {
  return a.item_id == b.item_id && a.document == b.document && same(a.metadata, b.metadata);
}

inline std::string gen_string(pbt::Case &c, bool odd) {
  static const std::vector<std::string> common = {"a", "b", "ab", "tech", "news", "", "a_b", "b_1", "1", "A", "techno"};
  static const std::vector<std::string> weird = {"_", "a_", "_a", "s_a", "i_1", "a_5", "0", "\xff", "d_", "f_x", "5_7",
                                                 std::string("a\0b", 3), std::string("\0", 1), "\xe4\xb8\xad", "a b", "__COUNT__"};
  if (odd && c.chance(1, 3)) {
    return c.chance(1, 6) ? std::string(1 + c.raw(300), static_cast<char>('a' + c.raw(3))) : c.pick(weird);
  }
  return c.pick(common);
}
inline int64_t gen_int(pbt::Case &c, bool odd) {
  if (odd && c.chance(1, 4)) {
    return c.pick<int64_t>({INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 255, 256, -256, 1LL << 40, -(1LL << 40)});
  }
  return c.range(-3, 6);
}
inline double gen_double(pbt::Case &c, bool odd) {
  if (odd && c.chance(1, 3)) {
    const double inf = std::numeric_limits<double>::infinity();
    return c.pick<double>({0.0, -0.0, inf, -inf, std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(),
                           std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(), 1e-300, -1e300});
  }
  return static_cast<double>(c.range(-6, 8)) / 2;
}
inline MetadataValue gen_value(pbt::Case &c, bool odd) {
  switch (c.raw(3)) {
    case 0: return gen_int(c, odd);
    case 1: return gen_string(c, odd);
    case 2: return gen_double(c, odd);
    default: return c.flip();
  }
}
// each field mostly holds one type
inline MetadataValue gen_value_for(pbt::Case &c, const std::string &field, bool odd) {
  if (c.chance(1, 7)) {
    return gen_value(c, odd);
  }
  switch (field.empty() ? 0 : field[0] % 4) {
    case 0: return gen_string(c, odd);
    case 1: return gen_int(c, odd);
    case 2: return gen_double(c, odd);
    default: return c.flip();
  }
}
inline MetadataMap gen_metadata(pbt::Case &c, const std::vector<std::string> &fields, bool odd) {
  MetadataMap m;
  for (auto &f : fields) {
    if (!c.chance(1, 4)) {
      m[f] = gen_value_for(c, f, odd);
    }
  }
  return m;
}

inline FilterCondition gen_condition(pbt::Case &c, const std::vector<std::string> &fields, bool odd) {
  FilterCondition k;
  k.field = c.chance(1, 15) ? "absent" : c.pick(fields);
  k.op = static_cast<FilterOp>(c.raw(8));
  k.value = gen_value_for(c, k.field, odd);
  if (k.op == FilterOp::IN_SET || k.op == FilterOp::NOT_IN_SET) {
    for (size_t i = c.raw(4); i > 0; --i) {
      k.values.push_back(gen_value_for(c, k.field, odd));
    }
  }
  return k;
}
inline MetadataFilter gen_filter(pbt::Case &c, const std::vector<std::string> &fields, bool odd, int depth = 3) {
  MetadataFilter f;
  if (depth == 3 && c.chance(2, 5)) {  // the shape that may use an index
    f.conditions.push_back(gen_condition(c, fields, odd));
    return f;
  }
  f.logic_op = static_cast<LogicOp>(c.weighted({4, 4, 2}));
  size_t total = f.logic_op == LogicOp::NOT ? 1 : c.raw(3);
  for (size_t i = 0; i < total; ++i) {
    if (depth > 0 && c.chance(1, 3)) {
      f.sub_filters.push_back(std::make_shared<MetadataFilter>(gen_filter(c, fields, odd, depth - 1)));
    } else {
      f.conditions.push_back(gen_condition(c, fields, odd));
    }
  }
  return f;
}

// the documented meaning of a condition and of a filter
inline bool holds(const FilterCondition &k, const MetadataMap &m) {
  const MetadataValue *a = nullptr;
  for (auto &[key, v] : m) {
    if (key == k.field) {
      a = &v;
    }
  }
  if (a == nullptr) {
    return false;
  }
  auto eq = [](const MetadataValue &x, const MetadataValue &y) {
    if (x.index() != y.index()) {
      return false;
    }
    switch (x.index()) {
      case 0: return std::get<0>(x) == std::get<0>(y);
      case 1: return std::get<1>(x) == std::get<1>(y);
      case 2: return std::get<2>(x) == std::get<2>(y);
      default: return std::get<3>(x) == std::get<3>(y);
    }
  };
  auto less = [](const MetadataValue &x, const MetadataValue &y) {
    switch (x.index()) {
      case 0: return std::get<0>(x) < std::get<0>(y);
      case 1: return std::get<1>(x) < std::get<1>(y);
      case 2: return std::get<2>(x).compare(std::get<2>(y)) < 0;
      default: return std::get<3>(x) < std::get<3>(y);
    }
  };
  bool typed = a->index() == k.value.index();
  bool member = false;
  for (auto &v : k.values) {
    member = member || eq(*a, v);
  }
  switch (k.op) {
    case FilterOp::EQ: return eq(*a, k.value);
    case FilterOp::NE: return !eq(*a, k.value);
    case FilterOp::GT: return typed && less(k.value, *a);
    case FilterOp::GE: return typed && (less(k.value, *a) || eq(*a, k.value));
    case FilterOp::LT: return typed && less(*a, k.value);
    case FilterOp::LE: return typed && (less(*a, k.value) || eq(*a, k.value));
    case FilterOp::IN_SET: return member;
    case FilterOp::NOT_IN_SET: return !member;
    case FilterOp::CONTAINS: {
      if (a->index() != 2 || k.value.index() != 2) {
        return false;
      }
      const std::string &hay = std::get<2>(*a), &nee = std::get<2>(k.value);
      for (size_t i = 0; i + nee.size() <= hay.size(); ++i) {
        if (std::memcmp(hay.data() + i, nee.data(), nee.size()) == 0) {
          return true;
        }
      }
      return false;
    }
  }
  return false;
}
inline bool holds(const MetadataFilter &f, const MetadataMap &m) {
  size_t n = 0, yes = 0;
  for (auto &k : f.conditions) {
    ++n;
    yes += holds(k, m);
  }
  for (auto &s : f.sub_filters) {
    ++n;
    yes += holds(*s, m);
  }
  if (n == 0) {
    return true;
  }
  return f.logic_op == LogicOp::AND ? yes == n : f.logic_op == LogicOp::OR ? yes > 0 : yes == 0;
}

template <class T>
std::string show_ids(const T &ids) {
  std::ostringstream o;
  size_t n = 0;
  for (auto id : ids) {
    if (n++ == 20) {
      o << "...";
      break;
    }
    o << id << ' ';
  }
  return "{" + o.str() + "}";
}
}  // namespace meta
