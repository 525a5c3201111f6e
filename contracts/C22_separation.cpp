// C22: angular separation and positional angle of sky points
#include "coord.hpp"
#include <boost/units/systems/si/velocity.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/alt_az.hpp>
#include <boost/astronomy/coordinate/coord_sys/geocentric.hpp>
#include <boost/astronomy/coordinate/ref_frame/frame.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
using namespace boost::astronomy::coordinate;
typedef vbu::quantity<vsi::velocity> v_q;
typedef spherical_representation<double, rad_q, rad_q, m_q> rep;
typedef spherical_representation<double, deg_q, deg_q, km_q> drep;
typedef spherical_coslat_differential<double, rad_q, rad_q, v_q> dif;
#define TWO double u = vp_real("u", -7, 7), v = vp_real("v", -7, 7), d = vp_len("d"), w = vp_real("w", -7, 7), x = vp_real("x", -7, 7), e = vp_len("e"); \
  double cs = std::sin(v) * std::cos(u) * std::sin(x) * std::cos(w) + std::sin(v) * std::sin(u) * std::sin(x) * std::sin(w) + std::cos(v) * std::cos(x); unit_product(u, v, w, x)
// lemma: the scalar product of two unit vectors lies in [-1, 1], because |a-b|^2 and |a+b|^2 are sums of squares
static void unit_product(double u, double v, double w, double x){
  double ax = std::sin(v) * std::cos(u), ay = std::sin(v) * std::sin(u), az = std::cos(v), bx = std::sin(x) * std::cos(w), by = std::sin(x) * std::sin(w), bz = std::cos(x);
  VP_ENSURES((ax - bx) * (ax - bx) + (ay - by) * (ay - by) + (az - bz) * (az - bz) >= 0, "lemma: squared difference of the directions");
  VP_ENSURES((ax + bx) * (ax + bx) + (ay + by) * (ay + by) + (az + bz) * (az + bz) >= 0, "lemma: squared sum of the directions");
}
// the cosine of the separation is the scalar product of the two directions, whatever the distances
VP_CONTRACT(C22, cosine){
  TWO; icrs<rep, dif> a(rad(u), rad(v), met(d)), b(rad(w), rad(x), met(e));
  double s = a.get_angular_separation(b).value();
  VP_SAME(std::cos(s), cs, "cosine of the separation");
  VP_ENSURES(s >= 0 && s <= VPI * 1.0000001, "separation lies in [0, pi]");
}
VP_CONTRACT(C22, symmetric){
  TWO; (void)cs; icrs<rep, dif> a(rad(u), rad(v), met(d)), b(rad(w), rad(x), met(e));
  VP_SAME(std::cos(a.get_angular_separation(b).value()), std::cos(b.get_angular_separation(a).value()), "separation is symmetric");
}
VP_CONTRACT(C22, distance_independent){
  TWO; (void)cs; double k = vp_len("k");
  icrs<rep, dif> a(rad(u), rad(v), met(d)), b(rad(w), rad(x), met(e)), c(rad(w), rad(x), met(k));
  VP_SAME(std::cos(a.get_angular_separation(b).value()), std::cos(a.get_angular_separation(c).value()), "separation does not depend on distance");
}
VP_CONTRACT(C22, meridian){
  // two directions on one meridian are apart by the difference of their polar angles
  double u = vp_real("u", -3.1, 3.1), v = vp_real("v", 0.05, 3.1), x = vp_real("x", 0.05, 3.1), d = vp_len("d"), e = vp_len("e");
  unit_product(u, v, u, x);
  icrs<rep, dif> a(rad(u), rad(v), met(d)), b(rad(u), rad(x), met(e));
  VP_SAME(std::cos(a.get_angular_separation(b).value()), std::cos(v - x), "separation along a meridian");
}
VP_CONTRACT(C22, units){
  TWO; geocentric<drep, dif> a(deg(u * (180 / VPI)), deg(v * (180 / VPI)), kmt(d)), b(deg(w * (180 / VPI)), deg(x * (180 / VPI)), kmt(e));
  VP_SAME(std::cos(a.get_angular_separation(b).value()), cs, "degrees and kilometres");
}
VP_CONTRACT(C22, sky_point){
  TWO; galactic<rep, dif> a(rad(u), rad(v), met(d)), b(rad(w), rad(x), met(e)); sky_point<galactic<rep, dif>> p(a), q(b);
  VP_SAME(std::cos(p.separation(q).value()), cs, "cosine of the sky point separation");
}
// positional angle of the second point seen from the first, from the (latitude, longitude) pairs
VP_CONTRACT(C22, positional_angle){
  double l1 = vp_real("l1", -1.5, 1.5), o1 = vp_real("o1", -7, 7), l2 = vp_real("l2", -1.5, 1.5), o2 = vp_real("o2", -7, 7), d = vp_len("d"), e = vp_len("e");
  double y = std::sin(o2 - o1) * std::cos(l2), c = std::sin(l2) * std::cos(l1) - std::cos(l2) * std::sin(l1) * std::cos(o2 - o1), r = y * y + c * c;
  VP_REQUIRES(r > 1e-3);
  sky_point<icrs<rep, dif>> p(rad(l1), rad(o1), met(d)), q(rad(l2), rad(o2), met(e));
  double t = p.positional_angle(q).value();
  double h = std::sqrt(r);
  VP_SAME(std::sin(t) * h, y, "sine of the positional angle"); VP_SAME(std::cos(t) * h, c, "cosine of the positional angle");
  VP_ENSURES(t >= -VPI * 1.0000001 && t <= VPI * 1.0000001, "positional angle lies in [-pi, pi]");
}
VP_CONTRACT(C22, positional_angle_north){
  double l1 = vp_real("l1", -1.5, 0), o = vp_real("o", -3, 3), l2 = vp_real("l2", 0.1, 1.5), d = vp_len("d"), e = vp_len("e");
  sky_point<icrs<rep, dif>> p(rad(l1), rad(o), met(d)), q(rad(l2), rad(o), met(e));
  VP_SAME(p.positional_angle(q).value(), 0, "due north is 0");
}
VP_CONTRACT(C22, positional_angle_degrees){
  double l1 = vp_real("l1", -85, 85), o1 = vp_real("o1", -400, 400), l2 = vp_real("l2", -85, 85), o2 = vp_real("o2", -400, 400), d = vp_len("d"), e = vp_len("e");
  const double k = VPI / 180;
  double y = std::sin(o2 * k - o1 * k) * std::cos(l2 * k), c = std::sin(l2 * k) * std::cos(l1 * k) - std::cos(l2 * k) * std::sin(l1 * k) * std::cos(o2 * k - o1 * k), r = y * y + c * c;
  VP_REQUIRES(r > 1e-3);
  sky_point<alt_az<drep, dif>> p(deg(l1), deg(o1), kmt(d)), q(deg(l2), deg(o2), kmt(e));
  double t = p.positional_angle(q).value(), h = std::sqrt(r);
  VP_SAME(std::sin(t) * h, y, "degrees: sine of the positional angle"); VP_SAME(std::cos(t) * h, c, "degrees: cosine of the positional angle");
}
