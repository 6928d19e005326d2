#ifndef GGSA_STUB_DTREAD_HPP
#define GGSA_STUB_DTREAD_HPP
#include "dtcalendar.hpp"
namespace ngpt {
// may throw (std::invalid_argument) on a malformed date
template <class T> datetime<T> strptime_ymd_hms(const char *, char ** = nullptr);
template <class T> datetime<T> strptime_ymd(const char *, char ** = nullptr);
template <class T> datetime<T> strptime_yod_hms(const char *, char ** = nullptr);
} // namespace ngpt
#endif
