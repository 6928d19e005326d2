#ifndef MINI_DTREAD_HPP
#define MINI_DTREAD_HPP
#include "dtcalendar.hpp"
namespace ngpt {
inline long mini_int(const char *&s) {
  char *e; while (*s == ' ' || *s == '-' || *s == ':' || *s == '/') ++s;
  long v = std::strtol(s, &e, 10);
  if (e == s) throw std::invalid_argument("bad date");
  s = e; return v;
}
template <class T> datetime<T> strptime_ymd_hms(const char *s, char **end = nullptr) {
  int y = mini_int(s), m = mini_int(s), d = mini_int(s), h = mini_int(s), mi = mini_int(s);
  char *e; double sec = std::strtod(s, &e);
  if (e == s || m < 1 || m > 12 || d < 1 || d > 31) throw std::invalid_argument("bad date");
  if (end) *end = e;
  return datetime<T>(year(y), month(m), day_of_month(d), hours(h), minutes(mi),
                     T((long)std::llround(sec * T::template sec_factor<double>())));
}
template <class T> datetime<T> strptime_ymd(const char *s, char **end = nullptr) {
  int y = mini_int(s), m = mini_int(s), d = mini_int(s);
  if (m < 1 || m > 12 || d < 1 || d > 31) throw std::invalid_argument("bad date");
  if (end) *end = const_cast<char *>(s);
  return datetime<T>(year(y), month(m), day_of_month(d));
}
} // namespace ngpt
#endif
