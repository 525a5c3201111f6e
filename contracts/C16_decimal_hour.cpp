// C16: decimal hours and their sexagesimal parts
#include "vp.hpp"
#include <cmath>
#include <boost/astronomy/time/parser.hpp>
static void parts(decimal_hour const& h, double v){
  double s = h.get_seconds();
  VP_SAME(h.get(), v, "the value is stored");
  VP_SAME(h.get_hours() + h.get_minutes() / 60.0 + s / 3600.0, v, "hours, minutes and seconds add up to the value");
  if (v >= 0){
    VP_ENSURES(h.get_minutes() >= 0 && h.get_minutes() < 60, "minutes lie in [0, 60)"); VP_ENSURES(s >= 0 && s < 60.0000001, "seconds lie in [0, 60)"); VP_ENSURES(h.get_hours() >= 0, "hours are not negative");
  } else {
    VP_ENSURES(h.get_minutes() <= 0 && h.get_minutes() > -60, "negative values: minutes lie in (-60, 0]"); VP_ENSURES(s <= 0 && s > -60.0000001, "negative values: seconds lie in (-60, 0]"); VP_ENSURES(h.get_hours() <= 0, "negative values: hours are not positive");
  }
}
VP_CONTRACT(C16, from_decimal){ double v = vp_real("v", -1e6, 1e6); parts(decimal_hour(v), v); }
VP_CONTRACT(C16, from_parts){
  double h = vp_real("h", -1e4, 1e4), m = vp_real("m", -100, 100), s = vp_real("s", -100, 100);
  parts(decimal_hour(h, m, s), h + m / 60 + s / 3600);
}
VP_CONTRACT(C16, roundtrip){
  double v = vp_real("v", -1e4, 1e4); decimal_hour a(v), b(a.get_hours(), a.get_minutes(), a.get_seconds());
  VP_SAME(b.get(), v, "splitting and rebuilding keeps the value");
}
VP_CONTRACT(C16, copies){ double v = vp_real("v", -1e4, 1e4), w = vp_real("w", -1e4, 1e4); decimal_hour a(v), b(a), c(w); c = a; parts(b, v); parts(c, v); }
