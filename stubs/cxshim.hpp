// clang rejects std::sqrt in a constant expression where g++ (the project's
// compiler) folds it; give the analysis a constexpr square root of the same
// name.  Calls that survive to run time are modelled as sqrt(double).
#ifndef GGSA_CXSHIM_HPP
#define GGSA_CXSHIM_HPP
#include <algorithm>
#include <array>
#include <cassert>
#include <cerrno>
#include <charconv>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <vector>
#include <cstdlib>
#include <string>
#include <utility>
namespace std {
constexpr double ggsa_sqrt(double x) noexcept {
  double r = x > 1e0 ? x : 1e0;
  for (int i = 0; i < 400; i++) {
    double n = 0.5 * (r + x / r);
    if (n == r) break;
    r = n;
  }
  return r;
}
// g++ folds std::strlen in constant expressions
constexpr size_t ggsa_strlen(const char *s) noexcept {
  return __builtin_strlen(s);
}
} // namespace std
using std::ggsa_strlen;
#define sqrt ggsa_sqrt
#define strlen ggsa_strlen
// ggnss distinguishes compilers (constexpr std::sqrt): analyse what the
// project's compiler, g++, sees
#undef __clang__
#endif
