#pragma once
#include <pybind11/numpy.h>
