#ifndef GGSA_STUB_DTWRITE_HPP
#define GGSA_STUB_DTWRITE_HPP
#include "dtcalendar.hpp"
namespace ngpt {
template <class T> std::string strftime_ymd_hms(const datetime<T> &);
} // namespace ngpt
#endif
