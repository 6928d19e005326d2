#ifndef MINI_DTWRITE_HPP
#define MINI_DTWRITE_HPP
#include "dtcalendar.hpp"
namespace ngpt {
template <class T> std::string strftime_ymd_hms(const datetime<T> &d) {
  return std::to_string(d.mjd().v) + ":" + std::to_string(d.sec().v); }
} // namespace ngpt
#endif
