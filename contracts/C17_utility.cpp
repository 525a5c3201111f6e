// C17: the rotation matrices, direction cosines, angle extraction and obliquity of coordinate/utility
#include "vp.hpp"
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/astronomy/coordinate/utility/utility.hpp>
using namespace boost::astronomy::coordinate;
typedef bu::quantity<bu::si::plane_angle> rad_t;
typedef bu::quantity<bud::plane_angle> deg_t;
static const double vpi = 3.14159265358979323846;

template <class M> static void is_product(M const& P, double d, const char* n){
  for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) VP_SAME(P(i,j), i == j ? d : 0.0, n);
}
template <class M> static void same_matrix(M const& A, M const& B, const char* n){
  for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) VP_SAME(A(i,j), B(i,j), n);
}
template <class M> static M transp(M const& A){
  M B(3,3);
  for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) B(i,j) = A(j,i);
  return B;
}

VP_CONTRACT(C17, column_vector_radians){
  double u = vp_real("u", -20, 20), v = vp_real("v", -20, 20);
  auto c = column_vector<double, rad_t, double>(u * bu::si::radian, v * bu::si::radian).get();
  VP_ENSURES(c.size1() == 3 && c.size2() == 1, "column vector is 3x1");
  VP_SAME(c(0,0), std::cos(u) * std::cos(v), "x = cos u cos v");
  VP_SAME(c(1,0), std::sin(u) * std::cos(v), "y = sin u cos v");
  VP_SAME(c(2,0), std::sin(v), "z = sin v");
  VP_SAME(c(0,0) * c(0,0) + c(1,0) * c(1,0) + c(2,0) * c(2,0), 1.0, "unit length");
}
VP_CONTRACT(C17, column_vector_degrees){
  double u = vp_real("u", -720, 720), v = vp_real("v", -720, 720);
  auto c = column_vector<double, deg_t, double>(u * bud::degrees, v * bud::degrees).get();
  double ru = u * (vpi / 180), rv = v * (vpi / 180);
  VP_SAME(c(0,0), std::cos(ru) * std::cos(rv), "degrees: x = cos u cos v");
  VP_SAME(c(1,0), std::sin(ru) * std::cos(rv), "degrees: y = sin u cos v");
  VP_SAME(c(2,0), std::sin(rv), "degrees: z = sin v");
}
VP_CONTRACT(C17, horizon_involution){
  double p = vp_real("phi", -20, 20);
  auto A = ha_dec_horizon<double, rad_t, double>(p * bu::si::radian).get();
  matrix<double> P = prod(A, A);
  is_product(P, 1.0, "ha/dec <-> horizon is its own inverse");
  same_matrix(A, transp(A), "ha/dec <-> horizon is symmetric");
  // meaning: the zenith (alt 90) has hour angle 0 and declination phi; the celestial pole has altitude phi, azimuth 0
  auto zen = column_vector<double, rad_t, double>(0.0 * bu::si::radian, (vpi / 2) * bu::si::radian).get();
  auto dec = column_vector<double, rad_t, double>(0.0 * bu::si::radian, p * bu::si::radian).get();
  matrix<double> z = prod(A, zen), q = prod(A, dec);
  for(int i = 0; i < 3; i++){ VP_SAME(z(i,0), dec(i,0), "zenith has declination phi"); VP_SAME(q(i,0), zen(i,0), "declination phi on the meridian is the zenith"); }
}
VP_CONTRACT(C17, horizon_preserves_directions){
  double p = vp_real("phi", -20, 20), h = vp_real("ha", -20, 20), d = vp_real("dec", -20, 20);
  auto A = ha_dec_horizon<double, deg_t, double>(p * bud::degrees).get();
  auto c = column_vector<double, rad_t, double>(h * bu::si::radian, d * bu::si::radian).get();
  matrix<double> r = prod(A, c);
  double f = p * (vpi / 180);
  // textbook: sin a = sin d sin f + cos d cos f cos H; cos a sin A = -cos d sin H; cos a cos A = sin d cos f - cos d sin f cos H
  VP_SAME(r(2,0), std::sin(d) * std::sin(f) + std::cos(d) * std::cos(f) * std::cos(h), "sine of altitude");
  VP_SAME(r(1,0), -std::cos(d) * std::sin(h), "cos alt sin az");
  VP_SAME(r(0,0), std::sin(d) * std::cos(f) - std::cos(d) * std::sin(f) * std::cos(h), "cos alt cos az");
  VP_SAME(r(0,0) * r(0,0) + r(1,0) * r(1,0) + r(2,0) * r(2,0), 1.0, "rotation keeps length");
}
VP_CONTRACT(C17, ha_ra_involution){
  double s = vp_real("st", -20, 20), h = vp_real("ha", -20, 20), d = vp_real("dec", -20, 20);
  auto A = ha_dec_ra_dec<double, rad_t, double>(s * bu::si::radian).get();
  matrix<double> P = prod(A, A);
  is_product(P, 1.0, "ha <-> ra is its own inverse");
  same_matrix(A, transp(A), "ha <-> ra is symmetric");
  // ra = st - ha, declination untouched
  auto c = column_vector<double, rad_t, double>(h * bu::si::radian, d * bu::si::radian).get();
  auto e = column_vector<double, rad_t, double>((s - h) * bu::si::radian, d * bu::si::radian).get();
  matrix<double> r = prod(A, c);
  for(int i = 0; i < 3; i++) VP_SAME(r(i,0), e(i,0), "right ascension = sidereal time - hour angle");
}
VP_CONTRACT(C17, ha_ra_degrees){
  double s = vp_real("st", -720, 720);
  auto A = ha_dec_ra_dec<double, deg_t, double>(s * bud::degrees).get();
  auto B = ha_dec_ra_dec<double, rad_t, double>(s * (vpi / 180) * bu::si::radian).get();
  same_matrix(A, B, "ha <-> ra: degrees agree with radians");
}
VP_CONTRACT(C17, ecliptic_inverse){
  double o = vp_real("obliquity", -20, 20);
  auto A = ecliptic_to_ra_dec<double, rad_t, double>(o * bu::si::radian).get();
  auto B = ra_dec_to_ecliptic<double, rad_t, double>(o * bu::si::radian).get();
  matrix<double> P = prod(A, B), Q = prod(B, A);
  is_product(P, 1.0, "ecliptic -> ra/dec -> ecliptic is the identity");
  is_product(Q, 1.0, "ra/dec -> ecliptic -> ra/dec is the identity");
  same_matrix(A, transp(B), "the two ecliptic matrices are transposes");
}
VP_CONTRACT(C17, ecliptic_meaning){
  double o = vp_real("obliquity", -20, 20), l = vp_real("lon", -20, 20), b = vp_real("lat", -20, 20);
  auto A = ecliptic_to_ra_dec<double, rad_t, double>(o * bu::si::radian).get();
  auto c = column_vector<double, rad_t, double>(l * bu::si::radian, b * bu::si::radian).get();
  matrix<double> r = prod(A, c);
  VP_SAME(r(0,0), std::cos(b) * std::cos(l), "cos dec cos ra");
  VP_SAME(r(1,0), std::cos(b) * std::sin(l) * std::cos(o) - std::sin(b) * std::sin(o), "cos dec sin ra");
  VP_SAME(r(2,0), std::sin(b) * std::cos(o) + std::cos(b) * std::sin(o) * std::sin(l), "sin dec");
}
VP_CONTRACT(C17, ecliptic_degrees){
  double o = vp_real("obliquity", -720, 720);
  auto A = ecliptic_to_ra_dec<double, deg_t, double>(o * bud::degrees).get();
  auto B = ecliptic_to_ra_dec<double, rad_t, double>(o * (vpi / 180) * bu::si::radian).get();
  auto E = ra_dec_to_ecliptic<double, deg_t, double>(o * bud::degrees).get();
  auto D = ra_dec_to_ecliptic<double, rad_t, double>(o * (vpi / 180) * bu::si::radian).get();
  same_matrix(A, B, "ecliptic -> ra/dec: degrees agree with radians");
  same_matrix(E, D, "ra/dec -> ecliptic: degrees agree with radians");
}
VP_CONTRACT(C17, galactic_inverse){
  auto A = galactic_to_ra_dec<double>().get();
  auto B = ra_dec_to_galactic<double>().get();
  same_matrix(A, transp(B), "the two galactic matrices are transposes");
  matrix<double> P = prod(A, B);
  for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++){
    double e = P(i,j) - (i == j ? 1.0 : 0.0);
    VP_ENSURES(e < 1e-6 && e > -1e-6, "galactic -> ra/dec -> galactic is the identity to 1e-6");
  }
  // right handed
  double det = A(0,0) * (A(1,1) * A(2,2) - A(1,2) * A(2,1)) - A(0,1) * (A(1,0) * A(2,2) - A(1,2) * A(2,0)) + A(0,2) * (A(1,0) * A(2,1) - A(1,1) * A(2,0));
  VP_ENSURES(det > 1 - 1e-6 && det < 1 + 1e-6, "galactic rotation is proper");
  // north galactic pole at RA 192.25, Dec 27.4; longitude of the node 33 degrees (B1950)
  const double np[3] = {-0.8676008, -0.1883746, 0.4601998};
  for(int i = 0; i < 3; i++){
    double e = A(i,2) - np[i], f = B(2,i) - np[i];
    VP_ENSURES(e < 1e-6 && e > -1e-6, "galactic -> ra/dec sends the galactic pole to RA 192.25, Dec 27.4");
    VP_ENSURES(f < 1e-6 && f > -1e-6, "ra/dec -> galactic: the galactic pole is at RA 192.25, Dec 27.4");
  }
  // galactic centre (l = 0, b = 0): RA 265.6, Dec -28.9
  const double gc[3] = {-0.0669887, -0.8727558, -0.4835389};
  for(int i = 0; i < 3; i++){
    double e = A(i,0) - gc[i];
    VP_ENSURES(e < 1e-6 && e > -1e-6, "galactic -> ra/dec sends the galactic centre to RA 265.6, Dec -28.9");
  }
}
VP_CONTRACT(C17, extract_range_and_inverse){
  double t = vp_real("theta", -3.14, 3.14), f = vp_real("phi", -1.57, 1.57);
  auto c = column_vector<double, rad_t, double>(t * bu::si::radian, f * bu::si::radian).get();
  auto r = extract_coordinates(c).get_coordinates();
  VP_SAME(r.first.value(), t, "first angle recovered");
  VP_SAME(r.second.value(), f, "second angle recovered");
}
VP_CONTRACT(C17, extract_any_vector){
  double f = vp_real("phi", -1.5, 1.5), t = vp_real("theta", -3.14, 3.14), k = vp_real("k", 0.001, 1000);
  // the first angle only depends on the direction of (x, y); the second only on z
  matrix<double> c(3,1);
  c(0,0) = k * std::cos(t); c(1,0) = k * std::sin(t); c(2,0) = std::sin(f);
  auto r = extract_coordinates(c).get_coordinates();
  VP_SAME(r.first.value(), t, "longitude angle = atan2(y, x)");
  VP_SAME(r.second.value(), f, "latitude angle = asin z");
}
VP_CONTRACT(C17, default_extract){
  auto r = extract_coordinates().get_coordinates();
  VP_SAME(r.first.value(), 0.0, "default extraction is zero");
  VP_SAME(r.second.value(), 0.0, "default extraction is zero");
}
VP_CONTRACT(C17, obliquity){
  int y = (int)vp_int("year", 1400, 9999), m = (int)vp_int("month", 1, 12), d = (int)vp_int("day", 1, 28);
  boost::gregorian::date dt(y, m, d);
  double T = ((double)dt.julian_day() - 2451545.0) / 36525.0;
  double deg = 23.439292 - (46.815 * T + 0.0006 * T * T - 0.00181 * T * T * T) / 3600.0;
  double e = obliquity_of_ecliptic(dt).get().value();
  VP_SAME(e * 180.0 / vpi, deg, "mean obliquity polynomial");
}
