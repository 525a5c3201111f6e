// C15: Greenwich and local sidereal time
#include "vp.hpp"
#include <cmath>
#include <boost/astronomy/time/time_conversions.hpp>
namespace bt = boost::astronomy::time;
namespace pt = boost::posix_time;
namespace gr = boost::gregorian;
struct civil { int y, m, d; };
static civil any_date(int month){
  civil c; c.y = (int)vp_int("y", 1583, 9999); c.m = month; c.d = (int)vp_int("d", 1, 31);
  VP_REQUIRES(c.d <= gr::gregorian_calendar::end_of_month_day(c.y, c.m));
  return c;
}
static pt::ptime at(civil c, long long us){ return pt::ptime(gr::date(c.y, c.m, c.d), pt::microseconds(us)); }
#define US vp_int("us", 0, 86399999999LL)
// a whole number of revolutions apart
static void same_hour(double a, double b, const char* n){ double k = (a - b) / 24; VP_SAME(k, std::floor(k + 0.5), n); }
static double mean(double jd0, double ut){ double T = (jd0 - 2451545.0) / 36525.0; return 6.697374558 + 2400.051336 * T + 0.000025862 * T * T + 1.002737909 * ut; }
template <int M> static void gst(){
  civil c = any_date(M); long long us = US; pt::ptime t = at(c, us);
  double g = bt::GST(t).get();
  VP_ENSURES(g >= 0 && g < 24, "GST lies in [0, 24)");
  same_hour(g, mean(bt::julian_date(t), us / 3600e6), "GST is the mean sidereal time of the instant");
}
#define MONTH(n) VP_CONTRACT(C15, gst_##n){ gst<n>(); }
MONTH(1) MONTH(2) MONTH(3) MONTH(4) MONTH(5) MONTH(6) MONTH(7) MONTH(8) MONTH(9) MONTH(10) MONTH(11) MONTH(12)
template <int W> static void lst(){
  civil c = any_date(3); long long us = US; pt::ptime t = at(c, us); double lon = vp_real("lon", -720, 720);
  double g = bt::GST(t).get(), l = bt::LST(lon, W ? bt::DIRECTION::WEST : bt::DIRECTION::EAST, t).get();
  VP_ENSURES(l >= 0 && l < 24, "LST lies in [0, 24)");
  same_hour(l, W ? g - lon / 15 : g + lon / 15, "LST is GST shifted by the longitude, 15 degrees per hour");
}
VP_CONTRACT(C15, lst_west){ lst<1>(); }
VP_CONTRACT(C15, lst_east){ lst<0>(); }
VP_CONTRACT(C15, lst_symmetry){
  civil c = any_date(6); long long us = US; pt::ptime t = at(c, us); double lon = vp_real("lon", -720, 720);
  same_hour(bt::LST(lon, bt::DIRECTION::WEST, t).get(), bt::LST(-lon, bt::DIRECTION::EAST, t).get(), "west is negative east");
  same_hour(bt::LST(lon + 360, bt::DIRECTION::EAST, t).get(), bt::LST(lon, bt::DIRECTION::EAST, t).get(), "a full turn changes nothing");
  VP_SAME(bt::LST(0, bt::DIRECTION::WEST, t).get(), bt::GST(t).get(), "on the meridian LST is GST");
}
