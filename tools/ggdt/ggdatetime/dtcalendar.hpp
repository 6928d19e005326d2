// Minimal working stand-in for the ggdatetime library (not in this sandbox),
// used only by the demonstration programs.
#ifndef MINI_DT_HPP
#define MINI_DT_HPP
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace ngpt {
struct year { int v; explicit year(int a) noexcept : v(a) {} };
struct month { int v; explicit month(int a) noexcept : v(a) {} };
struct day_of_month { int v; explicit day_of_month(int a) noexcept : v(a) {}
  bool is_valid(year, month) const noexcept { return v >= 1 && v <= 31; } };
struct hours { int v; explicit hours(int a) noexcept : v(a) {} };
struct minutes { int v; explicit minutes(int a) noexcept : v(a) {} };
struct gps_week { long v; explicit gps_week(long a) noexcept : v(a) {}
  long as_underlying_type() const noexcept { return v; } };
inline long civil_mjd(int y, int m, int d) {
  y -= m <= 2;
  const long era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = y - era * 400;
  const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097L + (long)doe - 719468L + 40587L;
}
struct modified_julian_day { long v; modified_julian_day() noexcept : v(0) {}
  explicit modified_julian_day(long a) noexcept : v(a) {}
  modified_julian_day(year y, month m, day_of_month d) : v(civil_mjd(y.v, m.v, d.v)) {}
  long as_underlying_type() const noexcept { return v; }
  bool operator==(const modified_julian_day &o) const noexcept { return v == o.v; }
  bool operator!=(const modified_julian_day &o) const noexcept { return v != o.v; }
  bool operator<(const modified_julian_day &o) const noexcept { return v < o.v; }
  bool operator>(const modified_julian_day &o) const noexcept { return v > o.v; }
  modified_julian_day operator+(const modified_julian_day &o) const noexcept { return modified_julian_day(v + o.v); }
  modified_julian_day operator-(const modified_julian_day &o) const noexcept { return modified_julian_day(v - o.v); }
};
#define MINI_SEC(NAME, FAC)                                                    \
  struct NAME { long v; static constexpr bool is_of_sec_type = true;           \
    NAME() noexcept : v(0) {} explicit NAME(long a) noexcept : v(a) {}         \
    NAME(hours h, minutes m, NAME s) noexcept                                  \
      : v((h.v * 3600L + m.v * 60L) * FAC + s.v) {}                            \
    template <typename T> static constexpr T sec_factor() noexcept {           \
      return static_cast<T>(FAC); }                                            \
    double to_fractional_seconds() const noexcept { return (double)v / FAC; }  \
    long as_underlying_type() const noexcept { return v; }                     \
    bool operator<(const NAME &o) const noexcept { return v < o.v; }           \
    bool operator>(const NAME &o) const noexcept { return v > o.v; }           \
    bool operator<=(const NAME &o) const noexcept { return v <= o.v; }         \
    bool operator>=(const NAME &o) const noexcept { return v >= o.v; }         \
    bool operator==(const NAME &o) const noexcept { return v == o.v; }         \
    NAME operator+(const NAME &o) const noexcept { return NAME(v + o.v); }     \
    NAME operator-(const NAME &o) const noexcept { return NAME(v - o.v); }     \
  }
MINI_SEC(seconds, 1L);
MINI_SEC(milliseconds, 1000L);
MINI_SEC(microseconds, 1000000L);
template <class S> class datetime {
  modified_julian_day m_mjd; S m_sec;
  void norm() noexcept {
    const long day = 86400L * S::template sec_factor<long>();
    long k = m_sec.v >= 0 ? m_sec.v / day : -((-m_sec.v + day - 1) / day);
    m_mjd.v += k; m_sec.v -= k * day;
  }
public:
  datetime() noexcept {}
  datetime(year y, month m, day_of_month d, hours h, minutes mm, S s)
      : m_mjd(y, m, d), m_sec(h, mm, s) { norm(); }
  datetime(year y, month m, day_of_month d, S s = S()) : m_mjd(y, m, d), m_sec(s) { norm(); }
  datetime(gps_week w, S s) noexcept : m_mjd(44244L + 7 * w.v), m_sec(s) { norm(); }
  template <class S2> datetime(gps_week w, S2 s) noexcept : m_mjd(44244L + 7 * w.v),
      m_sec(s.v * S::template sec_factor<long>() / S2::template sec_factor<long>()) { norm(); }
  datetime(modified_julian_day m, S s = S()) noexcept : m_mjd(m), m_sec(s) { norm(); }
  static datetime min() noexcept { return datetime(modified_julian_day(0)); }
  static datetime max() noexcept { return datetime(modified_julian_day(1L << 40)); }
  modified_julian_day mjd() const noexcept { return m_mjd; }
  modified_julian_day &mjd() noexcept { return m_mjd; }
  S sec() const noexcept { return m_sec; }
  S &sec() noexcept { return m_sec; }
  double as_mjd() const noexcept { return m_mjd.v + m_sec.to_fractional_seconds() / 86400e0; }
  gps_week as_gps_wsow(long &s) const noexcept {
    long w = (m_mjd.v - 44244L) / 7;
    s = (m_mjd.v - 44244L - 7 * w) * 86400L + m_sec.v / S::template sec_factor<long>();
    return gps_week(w);
  }
  template <class T> gps_week as_gps_wsow(T &s) const noexcept {
    long x; gps_week w = as_gps_wsow(x); s = T(x); return w;
  }
  template <class T> void add_seconds(T t) noexcept {
    m_sec.v += t.v * S::template sec_factor<long>() / T::template sec_factor<long>(); norm(); }
  template <class T> void remove_seconds(T t) noexcept {
    m_sec.v -= t.v * S::template sec_factor<long>() / T::template sec_factor<long>(); norm(); }
  template <class T> datetime<T> cast_to() const noexcept {
    return datetime<T>(m_mjd, T(m_sec.v * T::template sec_factor<long>() / S::template sec_factor<long>())); }
  template <class T> operator datetime<T>() const noexcept { return cast_to<T>(); }
};
template <class A, class B> long dt_cmp(const datetime<A> &a, const datetime<B> &b) noexcept {
  if (a.mjd().v != b.mjd().v) return a.mjd().v < b.mjd().v ? -1 : 1;
  long x = a.sec().v * (1000000L / A::template sec_factor<long>());
  long y = b.sec().v * (1000000L / B::template sec_factor<long>());
  return x < y ? -1 : x > y;
}
template <class A, class B> bool operator==(const datetime<A> &a, const datetime<B> &b) noexcept { return dt_cmp(a, b) == 0; }
template <class A, class B> bool operator!=(const datetime<A> &a, const datetime<B> &b) noexcept { return dt_cmp(a, b) != 0; }
template <class A, class B> bool operator<(const datetime<A> &a, const datetime<B> &b) noexcept { return dt_cmp(a, b) < 0; }
template <class A, class B> bool operator<=(const datetime<A> &a, const datetime<B> &b) noexcept { return dt_cmp(a, b) <= 0; }
template <class A, class B> bool operator>(const datetime<A> &a, const datetime<B> &b) noexcept { return dt_cmp(a, b) > 0; }
template <class A, class B> bool operator>=(const datetime<A> &a, const datetime<B> &b) noexcept { return dt_cmp(a, b) >= 0; }
template <class F, class T> T cast_to(F f) noexcept {
  return T(f.v * T::template sec_factor<long>() / F::template sec_factor<long>()); }
template <class T> T delta_sec(const datetime<T> &a, const datetime<T> &b) noexcept {
  return T((a.mjd().v - b.mjd().v) * 86400L * T::template sec_factor<long>() + a.sec().v - b.sec().v);
}
} // namespace ngpt
#endif
