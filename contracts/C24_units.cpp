// C24: the length units convert to metres and to each other by their definitions
#include "coord.hpp"
#include <boost/astronomy/units/length.hpp>
namespace vu = boost::astronomy::units;
// a tolerance of one part in 10^4 covers the digits boost::units carries for each definition
static void close(double got, double x, double factor, const char* what){
  double want = x * factor, tol = factor * 1e-4 * (x < 0 ? -x : x) + 1e-9;
  VP_ENSURES(got - want <= tol && want - got <= tol, what);
}
#define UNIT(name, ONE, MANY, TYPE, METRES) \
VP_CONTRACT(C24, name){ \
  double x = vp_real("x", -1000, 1000), y = vp_real("y", -1000, 1000); \
  typedef vbu::quantity<vu::TYPE> q; \
  close(static_cast<m_q>(q(x * vu::ONE)).value(), x, METRES, #ONE " in metres"); \
  close(static_cast<m_q>(q(x * vu::MANY)).value(), x, METRES, #MANY " in metres"); \
  q back(static_cast<m_q>(q(x * vu::ONE))); \
  VP_SAME(back.value(), x, #name " to metres and back"); \
  q sum = q(x * vu::ONE) + q(y * vu::MANY); \
  VP_SAME(sum.value(), x + y, #name " adds"); \
}
UNIT(metre, metre, metres, length_metre, 1.0)
UNIT(meter, meter, meters, length_meter, 1.0)
UNIT(centimetre, centimetre, centimetres, length_centimetre, 0.01)
UNIT(centimeter, centimeter, centimeters, length_centimeter, 0.01)
UNIT(astronomical_unit, astronomical_unit, astronomical_units, length_astronomical_unit, 1.495978707e11)
UNIT(light_second, light_second, light_seconds, length_light_second, 2.99792458e8)
UNIT(light_minute, light_minute, light_minutes, length_light_minute, 60 * 2.99792458e8)
UNIT(light_hour, light_hour, light_hours, length_light_hour, 3600 * 2.99792458e8)
UNIT(light_day, light_day, light_days, length_light_day, 86400 * 2.99792458e8)
UNIT(light_year, light_year, light_years, length_light_year, 31557600 * 2.99792458e8)
UNIT(parsec, parsec, parsecs, length_parsec, 3.0856775814913673e16)
VP_CONTRACT(C24, ratios){
  double x = vp_real("x", -1000, 1000);
  using namespace boost::astronomy::units;
  VP_SAME(static_cast<vbu::quantity<length_light_second>>(x * light_minutes).value(), 60 * x, "60 light seconds in a light minute");
  VP_SAME(static_cast<vbu::quantity<length_light_minute>>(x * light_hours).value(), 60 * x, "60 light minutes in a light hour");
  VP_SAME(static_cast<vbu::quantity<length_light_hour>>(x * light_days).value(), 24 * x, "24 light hours in a light day");
  double d = static_cast<vbu::quantity<length_light_day>>(x * light_years).value();
  close(d, x, 365.25, "365.25 light days in a light year");
  close(static_cast<vbu::quantity<length_light_year>>(x * parsecs).value(), x, 3.26156, "3.26156 light years in a parsec");
  close(static_cast<vbu::quantity<length_astronomical_unit>>(x * parsecs).value(), x, 206264.8, "206264.8 astronomical units in a parsec");
  VP_SAME(static_cast<vbu::quantity<length_centimeter>>(x * meters).value(), 100 * x, "100 centimetres in a metre");
}
