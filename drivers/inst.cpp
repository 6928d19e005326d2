// Explicit instantiations only: makes the header templates and the inline
// members of ggnss visible to the analysis.  Nothing here is ever executed.
#include "antenna.hpp"
#include "antenna_pcv.hpp"
#include "antex.hpp"
#include "bern_utils.hpp"
#include "gnssobs.hpp"
#include "gnssobsrv.hpp"
#include "navrnx.hpp"
#include "nvarstr.hpp"
#include "rinex.hpp"
#include "satellite.hpp"
#include "satsys.hpp"
#include "sp3c.hpp"
#include "obsrnx.hpp"
#include <cerrno>
#include <cstdlib>

namespace ngpt {
template datetime<seconds> NavDataFrame::toe2date<seconds>() const;
template datetime<milliseconds> NavDataFrame::toe2date<milliseconds>() const;
template int NavDataFrame::stateNclock<seconds>(const datetime<seconds> &, double *, double &) const;
template int NavDataFrame::stateNclock<milliseconds>(const datetime<milliseconds> &, double *, double &) const;
template double NavDataFrame::ref2toe<seconds>(const datetime<seconds> &) const noexcept;
template double NavDataFrame::ref2toc<seconds>(const datetime<seconds> &) const noexcept;
template datetime<seconds> NavDataFrame::toc<seconds>() const noexcept;
template datetime<seconds> NavDataFrame::toe<seconds>() const noexcept;
template int NavigationRnx::find_next_valid<milliseconds>(const datetime<milliseconds> &, NavigationRnx::pos_type &,
                                                          NavDataFrame &, SATELLITE_SYSTEM, int) noexcept;

} // namespace ngpt

namespace ggsa_driver {
using namespace ngpt;
std::string d_trim_first(const char *s, std::size_t &e, std::size_t stop) { return rtrim<str_algorithm_details::StrSearchPolicyStart>(s, e, stop); }
std::string d_trim_last(const char *s, std::size_t &e, std::size_t stop) { return rtrim<str_algorithm_details::StrSearchPolicyEnd>(s, e, stop); }
std::string d_trim_default(const char *s, std::size_t &e) { return rtrim(s, e); }
std::string d_trim_left(const char *s, std::size_t &e, std::size_t stop) { return ltrim(s, e, stop); }
bool d_blank(const char *s, std::size_t stop) { return string_is_empty(s, stop); }
bool d_numbers_1_19(const char *s, double *d) { return __char2double__<1, 19>(s, d); }
bool d_numbers_2_19(const char *s, double *d) { return __char2double__<2, 19>(s, d); }
bool d_numbers_3_19(const char *s, double *d) { return __char2double__<3, 19>(s, d); }
bool d_numbers_4_19(const char *s, double *d) { return __char2double__<4, 19>(s, d); }
bool d_numbers_3_14(const char *s, double *d) { return __char2double__<3, 14>(s, d); }
bool d_numbers_n_14(const char *s, double *d, int n) { return __char2double__<14>(s, d, n); }
bool d_numbers_n_19(const char *s, double *d, int n) { return __char2double__<19>(s, d, n); }
// what find_next_valid promises of the message it returns (specification)
bool d_nav_toofar(const NavDataFrame &f, const datetime<milliseconds> &t) {
  auto toc = f.toc<milliseconds>();
  return toc > t && delta_sec(toc, t) > milliseconds(4 * 3600 * 1000L);
}
bool d_nav_inwindow(const NavDataFrame &f, const datetime<milliseconds> &t) {
  auto hi = f.toc<milliseconds>();
  hi.add_seconds(seconds(f.fit_interval()));
  return f.toc<milliseconds>() <= t && t < hi;
}
bool d_nav_inwindow_glo(const NavDataFrame &f, const datetime<milliseconds> &t) {
  auto lo = f.toe<milliseconds>(), hi = f.toe<milliseconds>();
  lo.remove_seconds(seconds(f.fit_interval()));
  hi.add_seconds(seconds(f.fit_interval()));
  return lo <= t && t < hi;
}
const SATELLITE_SYSTEM *d_sp3_sys(const Sp3EpochSvRecord &r) { return &r.s_; }
const int *d_sp3_prn(const Sp3EpochSvRecord &r) { return &r.prn_; }
const double *d_sp3_val(const Sp3EpochSvRecord &r, int i) { return &r.vals_[i]; }
const Sp3Flag *d_sp3_flagr(const Sp3EpochSvRecord &r) { return &r.flag_; }
bool d_sp3_flag(const Sp3Flag &f, Sp3Event e) { return f.is_set(e); }
int d_sp3_sats(const Sp3c &f) { return f.num_sats(); }
long d_sp3_interval(const Sp3c &f) { return f.interval().as_underlying_type(); }
std::size_t d_sp3_room(const Sp3c &f) { auto v = f.allocate_epoch_vector(); return v.size(); }
void d_sp3_rewind(Sp3c &f) { f.rewind(); }
#ifdef DEBUG
void d_sp3_print(const Sp3c &f) { f.print_members(); }
#endif
// the start of an SP3 file as its first header line gives it, and what the second line has to repeat (specification)
void d_sp3_start(datetime<microseconds> *t, int y, int m, int d, int h, int mi, double s) {
  *t = datetime<microseconds>(year(y), month(m), day_of_month(d), hours(h), minutes(mi), microseconds(static_cast<long>(s * 1e6)));
}
long d_sp3_week(const datetime<microseconds> &t) {
  microseconds sw;
  return t.as_gps_wsow(sw).as_underlying_type();
}
double d_sp3_sow(const datetime<microseconds> &t) {
  microseconds sw;
  t.as_gps_wsow(sw);
  return sw.to_fractional_seconds();
}
double d_sp3_mjd(const datetime<microseconds> &t) { return t.as_mjd(); }
long d_sp3_usec(double s) { return static_cast<long>(s * 1e6); }
// one call per inline member; the bodies are analysed, these wrappers are not
bool d_attr_eq(const ObservationAttribute &a, ObservationAttribute b) { return a == b; }
bool d_attr_ne(const ObservationAttribute &a, ObservationAttribute b) { return a != b; }
char d_attr_char(const ObservationAttribute &a) { return a.as_char(); }
bool d_code_eq(const ObservationCode &a, const ObservationCode &b) { return a == b; }
bool d_code_ne(const ObservationCode &a, const ObservationCode &b) { return a != b; }
int d_code_band(const ObservationCode &a) { return a.band(); }
int &d_code_bandr(ObservationCode &a) { return a.band(); }
void d_code_ctor(void *p, OBSERVABLE_TYPE t, int b, ObservationAttribute at) { ::new (p) ObservationCode(t, b, at); }
OBSERVABLE_TYPE d_code_get0(const ObservationCode &a) { return a.get<0>(); }
int d_code_get1(const ObservationCode &a) { return a.get<1>(); }
ObservationAttribute d_code_get2(const ObservationCode &a) { return a.get<2>(); }
OBSERVABLE_TYPE *d_code_ref0(ObservationCode &a) { return &a.get<0>(); }
int *d_code_ref1(ObservationCode &a) { return &a.get<1>(); }
ObservationAttribute *d_code_ref2(ObservationCode &a) { return &a.get<2>(); }
void d_raw_ctor(void *p, SATELLITE_SYSTEM s, const ObservationCode &c) { ::new (p) GnssRawObservable(s, c); }
bool d_raw_eq(const GnssRawObservable &a, const GnssRawObservable &b) { return a == b; }
bool d_raw_ne(const GnssRawObservable &a, const GnssRawObservable &b) { return a != b; }
int d_raw_band(const GnssRawObservable &a) { return a.band(); }
SATELLITE_SYSTEM d_raw_sys(const GnssRawObservable &a) { return a.satsys(); }
SATELLITE_SYSTEM *d_raw_sysr(GnssRawObservable &a) { return &a.satsys(); }
void d_raw_code(void *p, const GnssRawObservable &a) { ::new (p) ObservationCode(a.code()); }
SATELLITE_SYSTEM d_raw_get0(const GnssRawObservable &a) { return a.get<0>(); }
void d_raw_get1(void *p, const GnssRawObservable &a) { ::new (p) ObservationCode(a.get<1>()); }
void d_part_ctor(void *p, const GnssRawObservable &o, double c) { ::new (p) __ObsPart(o, c); }
void d_part_ctor2(void *p, SATELLITE_SYSTEM s, const ObservationCode &o, double c) { ::new (p) __ObsPart(s, o, c); }
bool d_part_eq(const __ObsPart &a, const __ObsPart &b) { return a == b; }
bool d_part_ne(const __ObsPart &a, const __ObsPart &b) { return a != b; }
GnssRawObservable d_part_type(const __ObsPart &a) { return a.type(); }
void d_obs_ctor(void *p, SATELLITE_SYSTEM s, const ObservationCode &c, double k) { ::new (p) GnssObservable(s, c, k); }
void d_obs_ctor2(void *p, const GnssRawObservable &o, double k) { ::new (p) GnssObservable(o, k); }
void d_obs_add(GnssObservable &g, const GnssRawObservable &o, double k) { g.add(o, k); }
void d_obs_add2(GnssObservable &g, SATELLITE_SYSTEM s, const ObservationCode &c, double k) { g.add(s, c, k); }
double d_obs_freq(const GnssObservable &g) { return g.frequency(); }
bool d_obs_mixed(const GnssObservable &g) { return g.is_of_mixed_satsys(); }
bool d_obs_eq(const GnssObservable &a, const GnssObservable &b) { return a == b; }
bool d_obs_ne(const GnssObservable &a, const GnssObservable &b) { return a != b; }
std::vector<__ObsPart> *d_obs_uvr(GnssObservable &a) { return &a.underlying_vector(); }
SATELLITE_SYSTEM *d_raw_ref0(GnssRawObservable &a) { return &a.get<0>(); }
ObservationCode *d_raw_ref1(GnssRawObservable &a) { return &a.get<1>(); }
void d_part_def(void *p, const GnssRawObservable &o) { ::new (p) __ObsPart(o); }
void d_part_def2(void *p, SATELLITE_SYSTEM s, const ObservationCode &c) { ::new (p) __ObsPart(s, c); }
void d_obs_def(void *p, const GnssRawObservable &o) { ::new (p) GnssObservable(o); }
void d_obs_def2(void *p, SATELLITE_SYSTEM s, const ObservationCode &c) { ::new (p) GnssObservable(s, c); }
void d_obs_addd(GnssObservable &g, const GnssRawObservable &o) { g.add(o); }
void d_obs_addd2(GnssObservable &g, SATELLITE_SYSTEM s, const ObservationCode &c) { g.add(s, c); }
void d_obs_part(void *p, const GnssObservable &g, int i) { ::new (p) __ObsPart(g.underlying_vector()[i]); }
std::size_t d_obs_n(const GnssObservable &g) { return g.underlying_vector().size(); }
std::string *d_str_new(void *p) { return ::new (p) std::string(); }
void d_part_tcode(void *p, const __ObsPart &a) { ::new (p) ObservationCode(a.type().code()); }
SATELLITE_SYSTEM d_part_tsys(const __ObsPart &a) { return a.type().satsys(); }
double d_part_coef(const __ObsPart &a) { return a.__coef; }
// reading maps of observation files
typedef std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> ReqMap;
typedef std::vector<std::pair<std::size_t, double>> ColVec;
typedef std::map<SATELLITE_SYSTEM, std::vector<ColVec>> ColMap;
typedef std::vector<std::pair<Satellite, std::vector<double>>> EpochVec;
void d_req_init(void *p) { ::new (p) ReqMap(); }
void d_req_add(ReqMap &m, SATELLITE_SYSTEM s, const GnssObservable &g) { m[s].push_back(g); }
std::size_t d_req_size(const ReqMap &m, SATELLITE_SYSTEM s) { auto it = m.find(s); return it == m.end() ? 0 : it->second.size(); }
const GnssObservable *d_req_at(const ReqMap &m, SATELLITE_SYSTEM s, std::size_t i) { return &m.find(s)->second[i]; }
void d_col_init(void *p) { ::new (p) ColMap(); }
void d_col_put(ColMap &m, SATELLITE_SYSTEM s, std::size_t i, std::size_t n, std::size_t idx, double k) {
  if (m[s].size() <= i) m[s].push_back(ColVec());
  if (n) m[s][i].emplace_back(idx, k);
}
std::size_t d_col_systems(const ColMap &m) { return m.size(); }
std::size_t d_col_obs(const ColMap &m, SATELLITE_SYSTEM s) { auto it = m.find(s); return it == m.end() ? 0 : it->second.size(); }
std::size_t d_col_parts(const ColMap &m, SATELLITE_SYSTEM s, std::size_t i) { return m.find(s)->second[i].size(); }
std::size_t d_col_idx(const ColMap &m, SATELLITE_SYSTEM s, std::size_t i, std::size_t j) { return m.find(s)->second[i][j].first; }
double d_col_coef(const ColMap &m, SATELLITE_SYSTEM s, std::size_t i, std::size_t j) { return m.find(s)->second[i][j].second; }
std::size_t d_ev_size(const EpochVec &v) { return v.size(); }
const Satellite *d_ev_sat(const EpochVec &v, std::size_t i) { return &v[i].first; }
std::size_t d_ev_vals(const EpochVec &v, std::size_t i) { return v[i].second.size(); }
double d_ev_val(const EpochVec &v, std::size_t i, std::size_t j) { return v[i].second[j]; }
void d_ev_init(void *p, std::size_t n, std::size_t k) { ::new (p) EpochVec(); for (std::size_t i = 0; i < n; i++) static_cast<EpochVec *>(p)->push_back({Satellite(), std::vector<double>(k, 0e0)}); }
int d_raw_obs(char *p, double *v, int *l, int *q) {
  RawRnxObs__ o;
  o.__val = 0e0; o.__lli = -1; o.__ssi = -1;
  const int rc = o.resolve(p);
  *v = o.__val; *l = o.__lli; *q = o.__ssi;
  return rc;
}
double d_rnx_approx(const ObservationRnx &r, int i) { return i == 0 ? r.x_approx() : i == 1 ? r.y_approx() : r.z_approx(); }
void d_rnx_first(const ObservationRnx &r, void *p) { ::new (p) datetime<microseconds>(r.time_of_first_obs()); }
void d_rnx_rewind(ObservationRnx &r) { r.rewind(); }
double d_obs_coef(const GnssObservable &g, int i) { return g.underlying_vector()[i].__coef; }
void d_sat_ctor(void *p, SATELLITE_SYSTEM s) { ::new (p) Satellite(s); }
void d_sat_ctor2(void *p, SATELLITE_SYSTEM s, int n) { ::new (p) Satellite(s, n); }
int d_sat_prn(const Satellite &s) { return s.prn(); }
int *d_sat_prnr(Satellite &s) { return &s.prn(); }
int d_sat_svn(const Satellite &s) { return s.svn(); }
int *d_sat_svnr(Satellite &s) { return &s.svn(); }
SATELLITE_SYSTEM d_sat_sys(const Satellite &s) { return s.system(); }
SATELLITE_SYSTEM *d_sat_sysr(Satellite &s) { return &s.system(); }
SatelliteAntenna *d_sat_antr(Satellite &s) { return &s.antenna(); }
SatelliteAntenna d_sat_ant(const Satellite &s) { return s.antenna(); }
char *d_sat_cospar(Satellite &s) { return s.cospar(); }
void d_rant_ctor0(void *p) { ::new (p) ReceiverAntenna(); }
void d_rant_ctor1(void *p, const char *c) { ::new (p) ReceiverAntenna(c); }
void d_rant_ctor2(void *p, const std::string &c) { ::new (p) ReceiverAntenna(c); }
const char *d_rant_str(const ReceiverAntenna &a) { return a.__underlying_char__(); }
void d_sant_ctor0(void *p) { ::new (p) SatelliteAntenna(); }
void d_sant_ctor1(void *p, const char *c) { ::new (p) SatelliteAntenna(c); }
void d_sant_set(SatelliteAntenna &a, const char *c) { a.set_from_cstr(c); }
const char *d_sant_str(const SatelliteAntenna &a) { return a.__underlying_char__(); }
void d_pco_ctor(void *p, const ObservationCode &o, SATELLITE_SYSTEM s, double n, double e, double u) { ::new (p) AntennaPco(o, s, n, e, u); }
void d_antex_ctor(void *p) { ::new (p) Antex(); }
std::size_t d_pcl_size(AntennaPcoList &l) { return l.__vecref__().size(); }
const AntennaPco *d_pcl_at(AntennaPcoList &l, std::size_t i) { return &l.__vecref__()[i]; }
void d_pcl_init(void *p) { ::new (p) AntennaPcoList(); }
void d_pcl_add(AntennaPcoList &l, const AntennaPco &p) { l.__vecref__().push_back(p); }
int d_year(int y) { return rinex::four2two_digit_year(y); }
void d_nav_ctor(void *p) { ::new (p) NavDataFrame(); }
double d_nav_data(const NavDataFrame &f, int i) { return f.data(i); }
double *d_nav_datar(NavDataFrame &f, int i) { return &f.data(i); }
SATELLITE_SYSTEM d_nav_sys(const NavDataFrame &f) { return f.system(); }
int d_nav_prn(const NavDataFrame &f) { return f.prn(); }
SATELLITE_SYSTEM *d_nav_sysr(NavDataFrame &f) { return &f.system(); }
int *d_nav_prnr(NavDataFrame &f) { return &f.prn(); }
datetime<seconds> d_nav_toc(const NavDataFrame &f) { return f.toc(); }
void d_nav_settoc(NavDataFrame &f, datetime<seconds> d) { f.set_toc(d); }
int d_nav_health(const NavDataFrame &f) { return f.sv_health(); }
long d_nav_fit(const NavDataFrame &f) { return f.fit_interval(); }
template <SATELLITE_SYSTEM S> double fr(int b) { return satellite_system_traits<S>::band2frequency(b); }
template double fr<SATELLITE_SYSTEM::gps>(int);
template double fr<SATELLITE_SYSTEM::galileo>(int);
template double fr<SATELLITE_SYSTEM::sbas>(int);
template double fr<SATELLITE_SYSTEM::qzss>(int);
template double fr<SATELLITE_SYSTEM::beidou>(int);
template double fr<SATELLITE_SYSTEM::irnss>(int);
template <SATELLITE_SYSTEM S> double k_mi() { return satellite_system_traits<S>::mi(); }
template double k_mi<SATELLITE_SYSTEM::gps>();
template double k_mi<SATELLITE_SYSTEM::galileo>();
template double k_mi<SATELLITE_SYSTEM::beidou>();
template <SATELLITE_SYSTEM S> double k_om() { return satellite_system_traits<S>::omegae_dot(); }
template double k_om<SATELLITE_SYSTEM::gps>();
template double k_om<SATELLITE_SYSTEM::galileo>();
template double k_om<SATELLITE_SYSTEM::beidou>();
template <SATELLITE_SYSTEM S> double k_f() { return satellite_system_traits<S>::f_clock(); }
template double k_f<SATELLITE_SYSTEM::gps>();
template double k_f<SATELLITE_SYSTEM::galileo>();
template double k_f<SATELLITE_SYSTEM::beidou>();
template <SATELLITE_SYSTEM S> char ident() { return satellite_system_traits<S>::identifier; }
template char ident<SATELLITE_SYSTEM::gps>();
template char ident<SATELLITE_SYSTEM::glonass>();
template char ident<SATELLITE_SYSTEM::sbas>();
template char ident<SATELLITE_SYSTEM::galileo>();
template char ident<SATELLITE_SYSTEM::beidou>();
template char ident<SATELLITE_SYSTEM::qzss>();
template char ident<SATELLITE_SYSTEM::irnss>();
template char ident<SATELLITE_SYSTEM::mixed>();
// readers change hands
template <class X> static int traits() {
  return (std::is_copy_constructible<X>::value ? 1 : 0) | (std::is_copy_assignable<X>::value ? 2 : 0) | (std::is_move_constructible<X>::value ? 4 : 0) |
         (std::is_move_assignable<X>::value ? 8 : 0);
}
#define READER(X, n)                                                                                                   \
  int d_##n##_traits() { return traits<X>(); }                                                                         \
  template <class T> static void n##_mv(void *p, T &a) { if constexpr (std::is_move_constructible<T>::value) ::new (p) T(std::move(a)); } \
  template <class T> static void n##_as(T &a, T &b) { if constexpr (std::is_move_assignable<T>::value) a = std::move(b); } \
  void d_##n##_move(void *p, X &a) { n##_mv<X>(p, a); }                                                                \
  void d_##n##_assign(X &a, X &b) { n##_as<X>(a, b); }                                                                 \
  void d_##n##_dtor(X &a) { a.~X(); }
READER(ObservationRnx, mobs)
READER(NavigationRnx, mnav)
READER(Sp3c, msp3)
READER(Antex, matx)
READER(BernSatellit, mbrn)
} // namespace ggsa_driver
