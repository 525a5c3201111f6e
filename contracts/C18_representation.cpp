// C18: representations: components are what was stored, conversions keep the point and are inverse to each other
#include "coord.hpp"
#include <boost/astronomy/coordinate/rep/representation.hpp>
using namespace boost::astronomy::coordinate;
typedef cartesian_representation<double, m_q, m_q, m_q> cart;
typedef cartesian_representation<double, m_q, km_q, m_q> cart_mixed;
typedef spherical_representation<double, rad_q, rad_q, m_q> sph;
typedef spherical_representation<double, deg_q, deg_q, km_q> sph_deg;
typedef spherical_equatorial_representation<double, rad_q, rad_q, m_q> equ;
typedef spherical_equatorial_representation<double, deg_q, deg_q, km_q> equ_deg;

// ---- stored components -------------------------------------------------------------------------
VP_CONTRACT(C18, cartesian_components){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  auto a = make_cartesian_representation(met(x), kmt(y), met(z));
  VP_SAME(a.get_x().value(), x, "x is stored"); VP_SAME(a.get_y().value(), y, "y is stored"); VP_SAME(a.get_z().value(), z, "z is stored");
  auto t = a.get_x_y_z();
  VP_SAME(std::get<0>(t).value(), x, "tuple x"); VP_SAME(std::get<1>(t).value(), y, "tuple y"); VP_SAME(std::get<2>(t).value(), z, "tuple z");
  auto b(a);
  VP_SAME(b.get_x().value(), x, "copy x"); VP_SAME(b.get_y().value(), y, "copy y"); VP_SAME(b.get_z().value(), z, "copy z");
  auto c = make_cartesian_representation(a);
  VP_SAME(c.get_x().value(), x, "make from same type x"); VP_SAME(c.get_y().value(), y, "make from same type y"); VP_SAME(c.get_z().value(), z, "make from same type z");
}
VP_CONTRACT(C18, cartesian_setters){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z"), n = vp_coord("n");
  cart a(met(x), met(y), met(z)), b(a), c(a), d(a);
  a.set_x(met(n)); b.set_y(met(n)); c.set_z(met(n)); d.set_x_y_z(met(z), met(n), met(x));
  VP_SAME(a.get_x().value(), n, "set_x"); VP_SAME(a.get_y().value(), y, "set_x leaves y"); VP_SAME(a.get_z().value(), z, "set_x leaves z");
  VP_SAME(b.get_x().value(), x, "set_y leaves x"); VP_SAME(b.get_y().value(), n, "set_y"); VP_SAME(b.get_z().value(), z, "set_y leaves z");
  VP_SAME(c.get_x().value(), x, "set_z leaves x"); VP_SAME(c.get_y().value(), y, "set_z leaves y"); VP_SAME(c.get_z().value(), n, "set_z");
  VP_SAME(d.get_x().value(), z, "set_x_y_z x"); VP_SAME(d.get_y().value(), n, "set_x_y_z y"); VP_SAME(d.get_z().value(), x, "set_x_y_z z");
}
VP_CONTRACT(C18, cartesian_units){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  auto a = make_cartesian_representation(met(x), kmt(y), met(z));
  auto b = make_cartesian_representation<double, km_q, m_q, km_q>(a);
  VP_SAME(b.get_x().value() * 1000, x, "unit conversion x"); VP_SAME(b.get_y().value(), y * 1000, "unit conversion y"); VP_SAME(b.get_z().value() * 1000, z, "unit conversion z");
  cart c(a);
  VP_SAME(c.get_x().value(), x, "converting constructor x"); VP_SAME(c.get_y().value(), y * 1000, "converting constructor y"); VP_SAME(c.get_z().value(), z, "converting constructor z");
}
template <class S, class A, class L> static void spherical_store(double la, double lo, double d){
  S a(A::from_value(la), A::from_value(lo), L::from_value(d));
  VP_SAME(a.get_lat().value(), la, "lat is stored"); VP_SAME(a.get_lon().value(), lo, "lon is stored"); VP_SAME(a.get_dist().value(), d, "dist is stored");
  auto t = a.get_lat_lon_dist();
  VP_SAME(std::get<0>(t).value(), la, "tuple lat"); VP_SAME(std::get<1>(t).value(), lo, "tuple lon"); VP_SAME(std::get<2>(t).value(), d, "tuple dist");
  S b(a);
  VP_SAME(b.get_lat().value(), la, "copy lat"); VP_SAME(b.get_lon().value(), lo, "copy lon"); VP_SAME(b.get_dist().value(), d, "copy dist");
}
template <class S, class A, class L> static void spherical_set(double la, double lo, double d, double n){
  S a(A::from_value(la), A::from_value(lo), L::from_value(d)), b(a), c(a), e(a);
  a.set_lat(A::from_value(n)); b.set_lon(A::from_value(n)); c.set_dist(L::from_value(n)); e.set_lat_lon_dist(A::from_value(lo), A::from_value(la), L::from_value(n));
  VP_SAME(a.get_lat().value(), n, "set_lat"); VP_SAME(a.get_lon().value(), lo, "set_lat leaves lon"); VP_SAME(a.get_dist().value(), d, "set_lat leaves dist");
  VP_SAME(b.get_lat().value(), la, "set_lon leaves lat"); VP_SAME(b.get_lon().value(), n, "set_lon"); VP_SAME(b.get_dist().value(), d, "set_lon leaves dist");
  VP_SAME(c.get_lat().value(), la, "set_dist leaves lat"); VP_SAME(c.get_lon().value(), lo, "set_dist leaves lon"); VP_SAME(c.get_dist().value(), n, "set_dist");
  VP_SAME(e.get_lat().value(), lo, "set_lat_lon_dist lat"); VP_SAME(e.get_lon().value(), la, "set_lat_lon_dist lon"); VP_SAME(e.get_dist().value(), n, "set_lat_lon_dist dist");
}
VP_CONTRACT(C18, spherical_components){ spherical_store<sph, rad_q, m_q>(vp_coord("lat"), vp_coord("lon"), vp_coord("d")); }
VP_CONTRACT(C18, spherical_components_degrees){ spherical_store<sph_deg, deg_q, km_q>(vp_coord("lat"), vp_coord("lon"), vp_coord("d")); }
VP_CONTRACT(C18, spherical_setters){ spherical_set<sph, rad_q, m_q>(vp_coord("lat"), vp_coord("lon"), vp_coord("d"), vp_coord("n")); }
VP_CONTRACT(C18, spherical_setters_degrees){ spherical_set<sph_deg, deg_q, km_q>(vp_coord("lat"), vp_coord("lon"), vp_coord("d"), vp_coord("n")); }
VP_CONTRACT(C18, equatorial_components){ spherical_store<equ, rad_q, m_q>(vp_coord("lat"), vp_coord("lon"), vp_coord("d")); }
VP_CONTRACT(C18, equatorial_components_degrees){ spherical_store<equ_deg, deg_q, km_q>(vp_coord("lat"), vp_coord("lon"), vp_coord("d")); }
VP_CONTRACT(C18, equatorial_setters){ spherical_set<equ, rad_q, m_q>(vp_coord("lat"), vp_coord("lon"), vp_coord("d"), vp_coord("n")); }
VP_CONTRACT(C18, equatorial_setters_degrees){ spherical_set<equ_deg, deg_q, km_q>(vp_coord("lat"), vp_coord("lon"), vp_coord("d"), vp_coord("n")); }
VP_CONTRACT(C18, spherical_units){
  double la = vp_coord("lat"), lo = vp_coord("lon"), d = vp_coord("d");
  auto a = make_spherical_representation(rad(la), deg(lo), met(d));
  auto b = make_spherical_representation<double, deg_q, rad_q, km_q>(a);
  VP_SAME(b.get_lat().value() * (VPI / 180), la, "radian to degree"); VP_SAME(b.get_lon().value(), lo * (VPI / 180), "degree to radian"); VP_SAME(b.get_dist().value() * 1000, d, "metre to kilometre");
  auto p = make_spherical_equatorial_representation(rad(la), deg(lo), met(d));
  auto q = make_spherical_equatorial_representation<double, deg_q, rad_q, km_q>(p);
  VP_SAME(q.get_lat().value() * (VPI / 180), la, "equatorial: radian to degree"); VP_SAME(q.get_lon().value(), lo * (VPI / 180), "equatorial: degree to radian"); VP_SAME(q.get_dist().value() * 1000, d, "equatorial: metre to kilometre");
}

// ---- conversions: the point in space ------------------------------------------------------------
// first angular component u is the azimuth; the second is the polar angle (spherical) or the elevation (equatorial)
VP_CONTRACT(C18, spherical_to_cartesian){
  double u = vp_real("u", -7, 7), v = vp_real("v", -7, 7), d = vp_coord("d");
  sph s(rad(u), rad(v), met(d));
  auto c = make_cartesian_representation(s);
  VP_SAME(c.get_x().value(), d * std::sin(v) * std::cos(u), "x = d sin v cos u"); VP_SAME(c.get_y().value(), d * std::sin(v) * std::sin(u), "y = d sin v sin u"); VP_SAME(c.get_z().value(), d * std::cos(v), "z = d cos v");
  auto t = s.to_representation<cart>();
  VP_SAME(t.get_x().value(), c.get_x().value(), "to_representation x"); VP_SAME(t.get_y().value(), c.get_y().value(), "to_representation y"); VP_SAME(t.get_z().value(), c.get_z().value(), "to_representation z");
  cart e(s);
  VP_SAME(e.get_x().value(), c.get_x().value(), "constructor x"); VP_SAME(e.get_y().value(), c.get_y().value(), "constructor y"); VP_SAME(e.get_z().value(), c.get_z().value(), "constructor z");
}
VP_CONTRACT(C18, equatorial_to_cartesian){
  double u = vp_real("u", -7, 7), v = vp_real("v", -7, 7), d = vp_coord("d");
  equ s(rad(u), rad(v), met(d));
  auto c = make_cartesian_representation(s);
  VP_SAME(c.get_x().value(), d * std::cos(v) * std::cos(u), "x = d cos v cos u"); VP_SAME(c.get_y().value(), d * std::cos(v) * std::sin(u), "y = d cos v sin u"); VP_SAME(c.get_z().value(), d * std::sin(v), "z = d sin v");
  auto t = s.to_representation<cart>();
  VP_SAME(t.get_x().value(), c.get_x().value(), "to_representation x"); VP_SAME(t.get_y().value(), c.get_y().value(), "to_representation y"); VP_SAME(t.get_z().value(), c.get_z().value(), "to_representation z");
}
VP_CONTRACT(C18, degrees_to_cartesian_with_units){
  double u = vp_real("u", -400, 400), v = vp_real("v", -400, 400), d = vp_coord("d");
  double ru = u * (VPI / 180), rv = v * (VPI / 180);
  cart c(sph_deg(deg(u), deg(v), kmt(d)));
  VP_SAME(c.get_x().value(), 1000 * d * std::sin(rv) * std::cos(ru), "spherical degrees/km to metres x"); VP_SAME(c.get_y().value(), 1000 * d * std::sin(rv) * std::sin(ru), "spherical degrees/km to metres y"); VP_SAME(c.get_z().value(), 1000 * d * std::cos(rv), "spherical degrees/km to metres z");
  cart e(equ_deg(deg(u), deg(v), kmt(d)));
  VP_SAME(e.get_x().value(), 1000 * d * std::cos(rv) * std::cos(ru), "equatorial degrees/km to metres x"); VP_SAME(e.get_y().value(), 1000 * d * std::cos(rv) * std::sin(ru), "equatorial degrees/km to metres y"); VP_SAME(e.get_z().value(), 1000 * d * std::sin(rv), "equatorial degrees/km to metres z");
}
VP_CONTRACT(C18, spherical_roundtrip){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d");
  sph s(rad(u), rad(v), met(d));
  auto c = make_cartesian_representation(s);
  auto b = make_spherical_representation(c);
  VP_SAME(b.get_lat().value(), u, "azimuth survives cartesian"); VP_SAME(b.get_lon().value(), v, "polar angle survives cartesian"); VP_SAME(b.get_dist().value(), d, "distance survives cartesian");
  sph k(c);
  VP_SAME(k.get_lat().value(), u, "constructor: azimuth"); VP_SAME(k.get_lon().value(), v, "constructor: polar angle"); VP_SAME(k.get_dist().value(), d, "constructor: distance");
  auto t = c.to_representation<sph>();
  VP_SAME(t.get_lat().value(), u, "to_representation: azimuth"); VP_SAME(t.get_lon().value(), v, "to_representation: polar angle"); VP_SAME(t.get_dist().value(), d, "to_representation: distance");
}
VP_CONTRACT(C18, equatorial_roundtrip){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", -1.56, 1.56), d = vp_len("d");
  equ s(rad(u), rad(v), met(d));
  auto c = make_cartesian_representation(s);
  auto b = make_spherical_equatorial_representation(c);
  VP_SAME(b.get_lat().value(), u, "azimuth survives cartesian"); VP_SAME(b.get_lon().value(), v, "elevation survives cartesian"); VP_SAME(b.get_dist().value(), d, "distance survives cartesian");
  equ k(c);
  VP_SAME(k.get_lat().value(), u, "constructor: azimuth"); VP_SAME(k.get_lon().value(), v, "constructor: elevation"); VP_SAME(k.get_dist().value(), d, "constructor: distance");
  auto t = c.to_representation<equ>();
  VP_SAME(t.get_lat().value(), u, "to_representation: azimuth"); VP_SAME(t.get_lon().value(), v, "to_representation: elevation"); VP_SAME(t.get_dist().value(), d, "to_representation: distance");
}
VP_CONTRACT(C18, between_spherical_systems){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d");
  sph s(rad(u), rad(v), met(d));
  auto e = make_spherical_equatorial_representation(s);
  VP_SAME(e.get_lat().value(), u, "spherical to equatorial keeps azimuth"); VP_SAME(e.get_lon().value(), VPI / 2 - v, "elevation = 90 deg - polar angle"); VP_SAME(e.get_dist().value(), d, "spherical to equatorial keeps distance");
  auto b = make_spherical_representation(e);
  VP_SAME(b.get_lat().value(), u, "and back: azimuth"); VP_SAME(b.get_lon().value(), v, "and back: polar angle"); VP_SAME(b.get_dist().value(), d, "and back: distance");
}
VP_CONTRACT(C18, mixed_unit_cartesian_to_spherical){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d");
  double x = d * std::sin(v) * std::cos(u), y = d * std::sin(v) * std::sin(u), z = d * std::cos(v);
  cart_mixed c(met(x), kmt(y / 1000), met(z));
  auto b = make_spherical_representation(c);
  VP_SAME(b.get_lat().value(), u, "mixed units: azimuth"); VP_SAME(b.get_lon().value(), v, "mixed units: polar angle"); VP_SAME(b.get_dist().value(), d, "mixed units: distance");
  auto e = make_spherical_equatorial_representation(c);
  VP_SAME(e.get_lat().value(), u, "mixed units equatorial: azimuth"); VP_SAME(e.get_lon().value(), VPI / 2 - v, "mixed units equatorial: elevation"); VP_SAME(e.get_dist().value(), d, "mixed units equatorial: distance");
}
VP_CONTRACT(C18, cartesian_roundtrip){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  VP_REQUIRES(x * x + y * y > 1e-4);
  cart c(met(x), met(y), met(z));
  auto b = make_cartesian_representation(make_spherical_representation(c));
  VP_SAME(b.get_x().value(), x, "x survives spherical"); VP_SAME(b.get_y().value(), y, "y survives spherical"); VP_SAME(b.get_z().value(), z, "z survives spherical");
  auto e = make_cartesian_representation(make_spherical_equatorial_representation(c));
  VP_SAME(e.get_x().value(), x, "x survives equatorial"); VP_SAME(e.get_y().value(), y, "y survives equatorial"); VP_SAME(e.get_z().value(), z, "z survives equatorial");
}
VP_CONTRACT(C18, cartesian_on_the_axis){
  double z = vp_real("z", 1e-3, 1e3);
  cart c(met(0), met(0), met(z)), n(met(0), met(0), met(-z));
  auto b = make_cartesian_representation(make_spherical_representation(c)), d = make_cartesian_representation(make_spherical_representation(n));
  VP_SAME(b.get_x().value(), 0.0, "pole: x"); VP_SAME(b.get_y().value(), 0.0, "pole: y"); VP_SAME(b.get_z().value(), z, "pole: z");
  VP_SAME(d.get_x().value(), 0.0, "south pole: x"); VP_SAME(d.get_y().value(), 0.0, "south pole: y"); VP_SAME(d.get_z().value(), -z, "south pole: z");
}

// ---- addition and equality ---------------------------------------------------------------------
VP_CONTRACT(C18, cartesian_addition){
  double a = vp_coord("a"), b = vp_coord("b"), c = vp_coord("c"), x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  auto p = make_cartesian_representation(met(a), kmt(b), met(c));
  auto q = make_cartesian_representation(kmt(x), met(y), met(z));
  auto s = p + q;
  VP_SAME(s.get_x().value(), a + 1000 * x, "sum x in the left operand's unit"); VP_SAME(s.get_y().value() * 1000, 1000 * b + y, "sum y in the left operand's unit"); VP_SAME(s.get_z().value(), c + z, "sum z");
}
VP_CONTRACT(C18, cartesian_plus_spherical){
  double a = vp_coord("a"), b = vp_coord("b"), c = vp_coord("c"), u = vp_real("u", -7, 7), v = vp_real("v", -7, 7), d = vp_coord("d");
  cart p(met(a), met(b), met(c));
  auto s = p + sph(rad(u), rad(v), met(d));
  VP_SAME(s.get_x().value(), a + d * std::sin(v) * std::cos(u), "cartesian + spherical x"); VP_SAME(s.get_y().value(), b + d * std::sin(v) * std::sin(u), "cartesian + spherical y"); VP_SAME(s.get_z().value(), c + d * std::cos(v), "cartesian + spherical z");
  auto t = p + equ(rad(u), rad(v), met(d));
  VP_SAME(t.get_x().value(), a + d * std::cos(v) * std::cos(u), "cartesian + equatorial x"); VP_SAME(t.get_y().value(), b + d * std::cos(v) * std::sin(u), "cartesian + equatorial y"); VP_SAME(t.get_z().value(), c + d * std::sin(v), "cartesian + equatorial z");
}
VP_CONTRACT(C18, spherical_addition){
  double u = vp_real("u", -7, 7), v = vp_real("v", -7, 7), d = vp_real("d", -10, 10), s = vp_real("s", -7, 7), t = vp_real("t", -7, 7), e = vp_real("e", -10, 10);
  double sx = d * std::sin(v) * std::cos(u) + e * std::sin(t) * std::cos(s), sy = d * std::sin(v) * std::sin(u) + e * std::sin(t) * std::sin(s);
  VP_REQUIRES(sx * sx + sy * sy > 1e-3);
  sph p(rad(u), rad(v), met(d)), q(rad(s), rad(t), met(e));
  auto r = make_cartesian_representation(p + q);
  VP_SAME(r.get_x().value(), d * std::sin(v) * std::cos(u) + e * std::sin(t) * std::cos(s), "spherical sum is the vector sum (x)");
  VP_SAME(r.get_y().value(), d * std::sin(v) * std::sin(u) + e * std::sin(t) * std::sin(s), "spherical sum is the vector sum (y)");
  VP_SAME(r.get_z().value(), d * std::cos(v) + e * std::cos(t), "spherical sum is the vector sum (z)");
}
VP_CONTRACT(C18, equatorial_addition){
  double u = vp_real("u", -7, 7), v = vp_real("v", -7, 7), d = vp_real("d", -10, 10), s = vp_real("s", -7, 7), t = vp_real("t", -7, 7), e = vp_real("e", -10, 10);
  double sx = d * std::cos(v) * std::cos(u) + e * std::cos(t) * std::cos(s), sy = d * std::cos(v) * std::sin(u) + e * std::cos(t) * std::sin(s);
  VP_REQUIRES(sx * sx + sy * sy > 1e-3);
  equ p(rad(u), rad(v), met(d)), q(rad(s), rad(t), met(e));
  auto r = make_cartesian_representation(p + q);
  VP_SAME(r.get_x().value(), d * std::cos(v) * std::cos(u) + e * std::cos(t) * std::cos(s), "equatorial sum is the vector sum (x)");
  VP_SAME(r.get_y().value(), d * std::cos(v) * std::sin(u) + e * std::cos(t) * std::sin(s), "equatorial sum is the vector sum (y)");
  VP_SAME(r.get_z().value(), d * std::sin(v) + e * std::sin(t), "equatorial sum is the vector sum (z)");
}
VP_CONTRACT(C18, equality){
  double a = vp_coord("a"), b = vp_coord("b"), c = vp_coord("c"), x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  cart p(met(a), met(b), met(c)), q(met(x), met(y), met(z)), r(p);
  VP_ENSURES(p == r, "equal to its copy");
  bool same = a == x && b == y && c == z;
  VP_ENSURES((p == q) == same, "equal exactly when all three components agree");
  VP_ENSURES((q == p) == same, "equality is symmetric");
}
VP_CONTRACT(C18, equality_spherical){
  double u = vp_real("u", -7, 7), v = vp_real("v", -7, 7), d = vp_coord("d");
  sph p(rad(u), rad(v), met(d)), q(p);
  VP_ENSURES(p == q, "spherical equal to its copy");
  equ e(rad(u), rad(v), met(d)), f(e);
  VP_ENSURES(e == f, "equatorial equal to its copy");
  cart c(p);
  VP_ENSURES(c == p && p == c, "equal to its own cartesian conversion");
}

// ---- every conversion in mixed units: the three components of each operand have different units ------
typedef cartesian_representation<double, m_q, km_q, cm_q> cart_a;
typedef cartesian_representation<double, km_q, cm_q, m_q> cart_b;
typedef spherical_representation<double, rad_q, deg_q, cm_q> sph_a;
typedef spherical_representation<double, deg_q, rad_q, km_q> sph_b;
typedef spherical_equatorial_representation<double, rad_q, deg_q, cm_q> equ_a;
typedef spherical_equatorial_representation<double, deg_q, rad_q, km_q> equ_b;
template <class T> static void at(T const& t, double x, double y, double z){
  VP_SAME(si(t.get_x()), x, "x of the same point"); VP_SAME(si(t.get_y()), y, "y of the same point"); VP_SAME(si(t.get_z()), z, "z of the same point");
}
template <class T> static void at_angles(T const& t, double u, double v, double d){
  VP_SAME(si(t.get_lat()), u, "first angle of the same point"); VP_SAME(si(t.get_lon()), v, "second angle of the same point"); VP_SAME(si(t.get_dist()), d, "distance of the same point");
}
VP_CONTRACT(C18, units_same_form){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  cart_a a(met(x), kmt(y), cmt(z)); cart_b b(a); at(b, x, y * 1000, z / 100); at(cart_a(b), x, y * 1000, z / 100); at(make_cartesian_representation<double, cm_q, m_q, km_q>(a), x, y * 1000, z / 100);
  double rx = x, ry = y * (VPI / 180), rz = z / 100;
  sph_a s(rad(x), deg(y), cmt(z)); sph_b t(s); at_angles(t, rx, ry, rz); at_angles(sph_a(t), rx, ry, rz); at_angles(make_spherical_representation<double, deg_q, rad_q, m_q>(s), rx, ry, rz);
  equ_a e(rad(x), deg(y), cmt(z)); equ_b f(e); at_angles(f, rx, ry, rz); at_angles(equ_a(f), rx, ry, rz); at_angles(make_spherical_equatorial_representation<double, deg_q, rad_q, m_q>(e), rx, ry, rz);
}
VP_CONTRACT(C18, units_between_angular_forms){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.5, 179.5), d = vp_len("d"), rv = v * (VPI / 180);
  sph_a s(rad(u), deg(v), cmt(d));
  equ_b e(s); at_angles(e, u, VPI / 2 - rv, d / 100);
  sph_b b(e); at_angles(b, u, rv, d / 100);
  at_angles(make_spherical_equatorial_representation(s), u, VPI / 2 - rv, d / 100);
  at_angles(make_spherical_representation(e), u, rv, d / 100);
}
VP_CONTRACT(C18, units_to_cartesian){
  double u = vp_real("u", -7, 7), v = vp_real("v", -400, 400), d = vp_coord("d"), rv = v * (VPI / 180), m = d / 100;
  sph_a s(rad(u), deg(v), cmt(d));
  cart_b c(s); at(c, m * std::sin(rv) * std::cos(u), m * std::sin(rv) * std::sin(u), m * std::cos(rv));
  at(make_cartesian_representation(s), m * std::sin(rv) * std::cos(u), m * std::sin(rv) * std::sin(u), m * std::cos(rv));
  equ_a e(rad(u), deg(v), cmt(d));
  cart_b f(e); at(f, m * std::cos(rv) * std::cos(u), m * std::cos(rv) * std::sin(u), m * std::sin(rv));
  at(make_cartesian_representation(e), m * std::cos(rv) * std::cos(u), m * std::cos(rv) * std::sin(u), m * std::sin(rv));
}
VP_CONTRACT(C18, units_to_cartesian_degrees){
  double u = vp_real("u", -400, 400), v = vp_real("v", -7, 7), d = vp_coord("d"), ru = u * (VPI / 180), m = d * 1000;
  sph_b s(deg(u), rad(v), kmt(d)); equ_b e(deg(u), rad(v), kmt(d));
  at(make_cartesian_representation(s), m * std::sin(v) * std::cos(ru), m * std::sin(v) * std::sin(ru), m * std::cos(v)); at(cart_a(s), m * std::sin(v) * std::cos(ru), m * std::sin(v) * std::sin(ru), m * std::cos(v));
  at(cart_a(e), m * std::cos(v) * std::cos(ru), m * std::cos(v) * std::sin(ru), m * std::sin(v)); at(make_cartesian_representation(e), m * std::cos(v) * std::cos(ru), m * std::cos(v) * std::sin(ru), m * std::sin(v));
}
VP_CONTRACT(C18, units_from_cartesian){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d");
  double x = d * std::sin(v) * std::cos(u), y = d * std::sin(v) * std::sin(u), z = d * std::cos(v);
  cart_a c(met(x), kmt(y / 1000), cmt(z * 100)); cart_b k(kmt(x / 1000), cmt(y * 100), met(z));
  sph_b b(c); at_angles(b, u, v, d);
  at_angles(make_spherical_representation(c), u, v, d); at_angles(make_spherical_representation(k), u, v, d);
}
VP_CONTRACT(C18, units_from_cartesian_equatorial){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d");
  double x = d * std::sin(v) * std::cos(u), y = d * std::sin(v) * std::sin(u), z = d * std::cos(v);
  cart_a c(met(x), kmt(y / 1000), cmt(z * 100)); cart_b k(kmt(x / 1000), cmt(y * 100), met(z));
  equ_b e(c); at_angles(e, u, VPI / 2 - v, d);
  at_angles(make_spherical_equatorial_representation(c), u, VPI / 2 - v, d); at_angles(make_spherical_equatorial_representation(k), u, VPI / 2 - v, d);
}
VP_CONTRACT(C18, units_addition){
  double a = vp_coord("a"), b = vp_coord("b"), c = vp_coord("c"), u = vp_real("u", -7, 7), v = vp_real("v", -400, 400), d = vp_coord("d"), rv = v * (VPI / 180), m = d / 100;
  cart_b p(kmt(a), cmt(b), met(c));
  at(p + sph_a(rad(u), deg(v), cmt(d)), 1000 * a + m * std::sin(rv) * std::cos(u), b / 100 + m * std::sin(rv) * std::sin(u), c + m * std::cos(rv));
  at(p + equ_a(rad(u), deg(v), cmt(d)), 1000 * a + m * std::cos(rv) * std::cos(u), b / 100 + m * std::cos(rv) * std::sin(u), c + m * std::sin(rv));
  at(p + cart_a(met(a), kmt(b), cmt(c)), 1001 * a, b / 100 + 1000 * b, c + c / 100);
}
VP_CONTRACT(C18, units_spherical_addition){
  double u = vp_real("u", -7, 7), v = vp_real("v", -400, 400), d = vp_real("d", -1000, 1000), x = vp_real("x", -10, 10), y = vp_real("y", -0.01, 0.01), z = vp_real("z", -1000, 1000);
  double rv = v * (VPI / 180), m = d / 100, sx = m * std::sin(rv) * std::cos(u) + x, sy = m * std::sin(rv) * std::sin(u) + y * 1000;
  VP_REQUIRES(sx * sx + sy * sy > 1e-3);
  auto r = sph_a(rad(u), deg(v), cmt(d)) + cart_a(met(x), kmt(y), cmt(z));
  auto c = make_cartesian_representation(r);
  at(c, sx, sy, m * std::cos(rv) + z / 100);
}
VP_CONTRACT(C18, units_equatorial_addition){
  double u = vp_real("u", -7, 7), v = vp_real("v", -400, 400), d = vp_real("d", -1000, 1000), x = vp_real("x", -10, 10), y = vp_real("y", -0.01, 0.01), z = vp_real("z", -1000, 1000);
  double rv = v * (VPI / 180), m = d / 100, sx = m * std::cos(rv) * std::cos(u) + x, sy = m * std::cos(rv) * std::sin(u) + y * 1000;
  VP_REQUIRES(sx * sx + sy * sy > 1e-3);
  auto r = equ_a(rad(u), deg(v), cmt(d)) + cart_a(met(x), kmt(y), cmt(z));
  auto c = make_cartesian_representation(r);
  at(c, sx, sy, m * std::sin(rv) + z / 100);
}
// ---- from plain points -----------------------------------------------------------------------------
namespace vbg = boost::geometry;
typedef vbg::model::point<double, 3, vbg::cs::cartesian> pc;
typedef vbg::model::point<double, 3, vbg::cs::spherical<vbg::radian>> pr;
typedef vbg::model::point<double, 3, vbg::cs::spherical<vbg::degree>> pd;
typedef vbg::model::point<double, 3, vbg::cs::spherical_equatorial<vbg::radian>> pe;
VP_CONTRACT(C18, from_cartesian_point){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  cart c(pc(x, y, z)); at(c, x, y, z);
  at(make_cartesian_representation<double, m_q, m_q, m_q>(pc(x, y, z)), x, y, z);
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d");
  pc p(d * std::sin(v) * std::cos(u), d * std::sin(v) * std::sin(u), d * std::cos(v));
  at_angles(sph(p), u, v, d); at_angles(equ(p), u, VPI / 2 - v, d);
  at_angles(make_spherical_representation<double, rad_q, rad_q, m_q>(p), u, v, d); at_angles(make_spherical_equatorial_representation<double, rad_q, rad_q, m_q>(p), u, VPI / 2 - v, d);
}
VP_CONTRACT(C18, from_spherical_point){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d");
  at(cart(pr(u, v, d)), d * std::sin(v) * std::cos(u), d * std::sin(v) * std::sin(u), d * std::cos(v));
  at(cart(pe(u, VPI / 2 - v, d)), d * std::sin(v) * std::cos(u), d * std::sin(v) * std::sin(u), d * std::cos(v));
  at_angles(sph(pr(u, v, d)), u, v, d); at_angles(equ(pr(u, v, d)), u, VPI / 2 - v, d);
  at_angles(sph(pe(u, VPI / 2 - v, d)), u, v, d); at_angles(equ(pe(u, VPI / 2 - v, d)), u, VPI / 2 - v, d);
}
VP_CONTRACT(C18, from_degree_point){
  double u = vp_real("u", -179, 179), v = vp_real("v", 1, 179), d = vp_len("d"), ru = u * (VPI / 180), rv = v * (VPI / 180);
  at(cart(pd(u, v, d)), d * std::sin(rv) * std::cos(ru), d * std::sin(rv) * std::sin(ru), d * std::cos(rv));
  at_angles(sph(pd(u, v, d)), ru, rv, d); at_angles(equ(pd(u, v, d)), ru, VPI / 2 - rv, d);
}
// ---- to_representation into other units (known finding: the base class does not know the units of its components)
VP_CONTRACT(C18, kf_to_representation_units){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  at(cart(met(x), met(y), met(z)).to_representation<cartesian_representation<double, km_q, km_q, km_q>>(), x, y, z);
}
