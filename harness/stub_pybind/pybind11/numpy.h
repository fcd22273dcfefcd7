// Stand-in: python/include/params.hpp only needs a type named py::dtype, which the filtered search never looks at.
#pragma once
namespace pybind11 {
struct dtype {
  template <class T>
  static dtype of() { return {}; }
};
}  // namespace pybind11
