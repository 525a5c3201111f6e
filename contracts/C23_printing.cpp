// C23: what is printed is the name of the thing and its components, in order, with their units
#include "coord.hpp"
#include <sstream>
#include <boost/units/io.hpp>
#include <boost/astronomy/coordinate/io/io.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/time/parser.hpp>
using namespace boost::astronomy::coordinate;
template <class A, class B, class C> static std::string list(const char* name, A const& a, B const& b, C const& c){
  std::ostringstream o; o << name << " ( " << a << " , " << b << " , " << c << " )"; return o.str();
}
template <class T> static std::string print(T const& t){
  std::ostringstream o; o << t << "|"; return o.str();   // the stream itself is returned
}
template <class X, class Y, class Z> static void cartesian(double x, double y, double z){
  cartesian_representation<double, X, Y, Z> p(X::from_value(x), Y::from_value(y), Z::from_value(z));
  VP_ENSURES(print(p) == list("Cartesian Representation", p.get_x(), p.get_y(), p.get_z()) + "|", "a cartesian position prints x, y, z with their units");
}
template <class U, class V, class D> static void angular(double u, double v, double d){
  spherical_representation<double, U, V, D> s(U::from_value(u), V::from_value(v), D::from_value(d));
  VP_ENSURES(print(s) == list("Spherical Representation", s.get_lat(), s.get_lon(), s.get_dist()) + "|", "a spherical position prints its angles and distance with their units");
  spherical_equatorial_representation<double, U, V, D> e(U::from_value(u), V::from_value(v), D::from_value(d));
  VP_ENSURES(print(e) == list("Spherical Equatorial Representation", e.get_lat(), e.get_lon(), e.get_dist()) + "|", "an equatorial position prints its angles and distance with their units");
}
VP_CONTRACT(C23, cartesian){ double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z"); cartesian<m_q, m_q, m_q>(x, y, z); cartesian<m_q, km_q, cm_q>(x, y, z); }
VP_CONTRACT(C23, angular){ double u = vp_coord("u"), v = vp_coord("v"), d = vp_coord("d"); angular<rad_q, rad_q, m_q>(u, v, d); angular<deg_q, rad_q, km_q>(u, v, d); angular<rad_q, deg_q, cm_q>(u, v, d); }
#define PAIR(name, TYPE, A, B, TITLE, TA, TB) \
template <class QA, class QB> static void pair_##name(double a, double b){ \
  TYPE<double, QA, QB> c(QA::from_value(a), QB::from_value(b)); \
  std::ostringstream o; o << TITLE " (" TA ": " << c.get_##A() << ", " TB ": " << c.get_##B() << ")|"; \
  VP_ENSURES(print(c) == o.str(), TITLE " prints its two angles by name"); \
} \
VP_CONTRACT(C23, name){ double a = vp_coord("a"), b = vp_coord("b"); pair_##name<rad_q, rad_q>(a, b); pair_##name<deg_q, rad_q>(a, b); pair_##name<rad_q, deg_q>(a, b); }
PAIR(horizon, horizon_coord, altitude, azimuth, "Horizon Coordinate", "Altitude", "Azimuth")
PAIR(equatorial_ha, equatorial_ha_coord, ha, dec, "Equatorial Coordinate", "Hour Angle", "Declination")
PAIR(equatorial_ra, equatorial_ra_coord, ra, dec, "Equatorial Coordinate", "Right Ascension", "Declination")
PAIR(ecliptic, ecliptic_coord, lat, lon, "Ecliptic Coordinate", "Ecliptic Latitude", "Ecliptic Longitude")
PAIR(galactic, galactic_coord, lat, lon, "Galactic Coordinate", "Galactic Latitude", "Galactic Longitude")
VP_CONTRACT(C23, decimal_hour){
  double d = vp_real("d", -1000, 1000);
  decimal_hour h(d);
  VP_ENSURES(print(h) == "Hours: " + std::to_string(h.get_hours()) + "h " + std::to_string(h.get_minutes()) + "m " + std::to_string(h.get_seconds()) + "s |", "a decimal hour prints hours, minutes and seconds");
}
