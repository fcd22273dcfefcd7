// main() shared by the harnesses: silences the library's logging, then runs the registered properties.
#pragma once
#include <spdlog/spdlog.h>
#include "pbt.hpp"
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  pbt::Runner r;
  return r.main(argc, argv);
}
