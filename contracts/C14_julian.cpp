// C14: Julian date of a calendar date
#include "vp.hpp"
#include <cmath>
#include <boost/astronomy/time/time_conversions.hpp>
namespace bt = boost::astronomy::time;
namespace pt = boost::posix_time;
namespace gr = boost::gregorian;
// days of a civil date, counted independently of the code: whole years, then whole months
static long long jdn_julian(long long y, int m, int d){ long long a = (14 - m) / 12, yy = y + 4800 - a; int mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - 32083; }
static long long jdn_gregorian(long long y, int m, int d){ long long a = (14 - m) / 12, yy = y + 4800 - a; int mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; }
struct civil { int y, m, d; };
static civil any_date(long long ylo, long long yhi, int month){
  civil c; c.y = (int)vp_int("y", ylo, yhi); c.m = month; c.d = (int)vp_int("d", 1, 31);
  VP_REQUIRES(c.d <= gr::gregorian_calendar::end_of_month_day(c.y, c.m));
  return c;
}
static pt::ptime at(civil c, long long us){ return pt::ptime(gr::date(c.y, c.m, c.d), pt::microseconds(us)); }
#define US vp_int("us", 0, 86399999999LL)
template <int M> static void gregorian(){
  civil c = any_date(1583, 9999, M); long long us = US;
  VP_SAME(bt::julian_date(at(c, us)), (double)jdn_gregorian(c.y, c.m, c.d) - 0.5, "Julian date at 0h of a Gregorian date");
}
template <int M> static void julian(){
  civil c = any_date(1400, 1581, M); long long us = US;
  VP_SAME(bt::julian_date(at(c, us)), (double)jdn_julian(c.y, c.m, c.d) - 0.5, "Julian date at 0h of a Julian date");
}
#define MONTH(n) VP_CONTRACT(C14, gregorian_##n){ gregorian<n>(); } VP_CONTRACT(C14, julian_##n){ julian<n>(); }
MONTH(1) MONTH(2) MONTH(3) MONTH(4) MONTH(5) MONTH(6) MONTH(7) MONTH(8) MONTH(9) MONTH(10) MONTH(11) MONTH(12)
VP_CONTRACT(C14, year_1582){
  // the calendar changed from Julian 4 October to Gregorian 15 October 1582
  int m = (int)vp_int("m", 1, 12), d = (int)vp_int("d", 1, 31); long long us = US;
  for (int k = 1; k <= 12; ++k) if (m == k){
    VP_REQUIRES(d <= gr::gregorian_calendar::end_of_month_day(1582, k));
    VP_REQUIRES(k != 10 || d <= 4 || d >= 15);
    civil c = {1582, k, d};
    bool greg = k > 10 || (k == 10 && d >= 15);
    double want = (double)(greg ? jdn_gregorian(1582, k, d) : jdn_julian(1582, k, d)) - 0.5;
    VP_SAME(bt::julian_date(at(c, us)), want, "Julian date in the year of the calendar reform");
  }
}
