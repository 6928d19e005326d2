// Declaration-only model of the ggdatetime library (not present in this
// sandbox).  Only the interface that ggnss uses; no function has a body, so
// that every call stays visible in the analysed program as a call to a named
// ggdatetime entry point (a trusted primitive of the analysis).
#ifndef GGSA_STUB_DTCALENDAR_HPP
#define GGSA_STUB_DTCALENDAR_HPP
#include <cassert>
#include <cmath>
#include <cstdint>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace ngpt {
struct year { int v; explicit year(int) noexcept; };
struct month { int v; explicit month(int) noexcept; };
struct day_of_month { int v; explicit day_of_month(int) noexcept;
  bool is_valid(year, month) const noexcept; };
struct hours { int v; explicit hours(int) noexcept; };
struct minutes { int v; explicit minutes(int) noexcept; };
struct gps_week { long v; explicit gps_week(long) noexcept;
  long as_underlying_type() const noexcept; };
struct modified_julian_day { long v; modified_julian_day() noexcept;
  explicit modified_julian_day(long) noexcept;
  modified_julian_day(year, month, day_of_month);
  long as_underlying_type() const noexcept;
  bool operator==(const modified_julian_day &) const noexcept;
  bool operator!=(const modified_julian_day &) const noexcept;
  bool operator<(const modified_julian_day &) const noexcept;
  bool operator>(const modified_julian_day &) const noexcept;
  modified_julian_day operator+(const modified_julian_day &) const noexcept;
  modified_julian_day operator-(const modified_julian_day &) const noexcept;
};
#define GGSA_SEC(NAME)                                                         \
  struct NAME { long v; static constexpr bool is_of_sec_type = true;          \
    NAME() noexcept; explicit NAME(long) noexcept;                             \
    NAME(hours, minutes, NAME) noexcept;                                       \
    template <typename T> static constexpr T sec_factor() noexcept {           \
      return static_cast<T>(GGSA_FACTOR_##NAME); }                             \
    double to_fractional_seconds() const noexcept;                             \
    long as_underlying_type() const noexcept;                                  \
    bool operator<(const NAME &) const noexcept;                               \
    bool operator>(const NAME &) const noexcept;                               \
    bool operator<=(const NAME &) const noexcept;                              \
    bool operator>=(const NAME &) const noexcept;                              \
    bool operator==(const NAME &) const noexcept;                              \
    NAME operator+(const NAME &) const noexcept;                               \
    NAME operator-(const NAME &) const noexcept;                               \
  }
#define GGSA_FACTOR_seconds 1L
#define GGSA_FACTOR_milliseconds 1000L
#define GGSA_FACTOR_microseconds 1000000L
GGSA_SEC(seconds);
GGSA_SEC(milliseconds);
GGSA_SEC(microseconds);
template <class S> class datetime {
  modified_julian_day m_mjd; S m_sec;
public:
  datetime() noexcept;
  datetime(year, month, day_of_month, hours, minutes, S);
  datetime(year, month, day_of_month, S = S());
  datetime(gps_week, S) noexcept;
  template <class S2> datetime(gps_week, S2) noexcept;
  datetime(modified_julian_day, S = S()) noexcept;
  static datetime min() noexcept;
  static datetime max() noexcept;
  modified_julian_day mjd() const noexcept;
  modified_julian_day &mjd() noexcept;
  S sec() const noexcept;
  S &sec() noexcept;
  double as_mjd() const noexcept;
  gps_week as_gps_wsow(long &) const noexcept;
  template <class T> gps_week as_gps_wsow(T &) const noexcept;
  template <class T> void add_seconds(T) noexcept;
  template <class T> void remove_seconds(T) noexcept;
  template <class T> datetime<T> cast_to() const noexcept;
  template <class T> operator datetime<T>() const noexcept;
};
template <class A, class B> bool operator==(const datetime<A> &, const datetime<B> &) noexcept;
template <class A, class B> bool operator!=(const datetime<A> &, const datetime<B> &) noexcept;
template <class A, class B> bool operator<(const datetime<A> &, const datetime<B> &) noexcept;
template <class A, class B> bool operator<=(const datetime<A> &, const datetime<B> &) noexcept;
template <class A, class B> bool operator>(const datetime<A> &, const datetime<B> &) noexcept;
template <class A, class B> bool operator>=(const datetime<A> &, const datetime<B> &) noexcept;
template <class F, class T> T cast_to(F) noexcept;
// the real library returns the difference as a second-type; ggnss compares it
// with the T it was instantiated with
template <class T> T delta_sec(const datetime<T> &, const datetime<T> &) noexcept;
} // namespace ngpt
#endif
