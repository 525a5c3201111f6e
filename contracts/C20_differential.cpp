// C20: differentials: components are what was stored; conversions, sums and scalings act on the vector they stand for
#include "coord.hpp"
#include <boost/units/systems/si/velocity.hpp>
#include <boost/astronomy/coordinate/diff/differential.hpp>
using namespace boost::astronomy::coordinate;
typedef vbu::quantity<vsi::velocity> v_q;
typedef vbu::quantity<vsi::time> s_q;
typedef vbu::quantity<vbu::divide_typeof_helper<km_u, vsi::time>::type> kv_q;
inline v_q vel(double v){ return v_q::from_value(v); }
inline kv_q kvel(double v){ return kv_q::from_value(v); }
typedef cartesian_differential<double, v_q, v_q, v_q> cart;
typedef spherical_differential<double, rad_q, rad_q, v_q> sph;
typedef spherical_equatorial_differential<double, rad_q, rad_q, v_q> equ;
typedef spherical_coslat_differential<double, rad_q, rad_q, v_q> coslat_t;

VP_CONTRACT(C20, cartesian_components){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z"), n = vp_coord("n");
  auto a = make_cartesian_differential(vel(x), kvel(y), vel(z));
  VP_SAME(a.get_dx().value(), x, "dx is stored"); VP_SAME(a.get_dy().value(), y, "dy is stored"); VP_SAME(a.get_dz().value(), z, "dz is stored");
  auto t = a.get_dx_dy_dz();
  VP_SAME(std::get<0>(t).value(), x, "tuple dx"); VP_SAME(std::get<1>(t).value(), y, "tuple dy"); VP_SAME(std::get<2>(t).value(), z, "tuple dz");
  auto b(a), c(a), d(a), e(a);
  b.set_dx(vel(n)); c.set_dy(kvel(n)); d.set_dz(vel(n)); e.set_dx_dy_dz(vel(z), kvel(n), vel(x));
  VP_SAME(b.get_dx().value(), n, "set_dx"); VP_SAME(b.get_dy().value(), y, "set_dx leaves dy"); VP_SAME(b.get_dz().value(), z, "set_dx leaves dz");
  VP_SAME(c.get_dx().value(), x, "set_dy leaves dx"); VP_SAME(c.get_dy().value(), n, "set_dy"); VP_SAME(c.get_dz().value(), z, "set_dy leaves dz");
  VP_SAME(d.get_dx().value(), x, "set_dz leaves dx"); VP_SAME(d.get_dy().value(), y, "set_dz leaves dy"); VP_SAME(d.get_dz().value(), n, "set_dz");
  VP_SAME(e.get_dx().value(), z, "set_dx_dy_dz dx"); VP_SAME(e.get_dy().value(), n, "set_dx_dy_dz dy"); VP_SAME(e.get_dz().value(), x, "set_dx_dy_dz dz");
  auto f = make_cartesian_differential<double, kv_q, v_q, kv_q>(a);
  VP_SAME(f.get_dx().value() * 1000, x, "unit conversion dx"); VP_SAME(f.get_dy().value(), y * 1000, "unit conversion dy"); VP_SAME(f.get_dz().value() * 1000, z, "unit conversion dz");
  cart g(a);
  VP_SAME(g.get_dx().value(), x, "converting constructor dx"); VP_SAME(g.get_dy().value(), y * 1000, "converting constructor dy"); VP_SAME(g.get_dz().value(), z, "converting constructor dz");
}
template <class S, class A, class L> static void store(double la, double lo, double d, double n){
  const S a(A::from_value(la), A::from_value(lo), L::from_value(d));
  VP_SAME(a.get_dlat().value(), la, "dlat is stored"); VP_SAME(a.get_dlon().value(), lo, "dlon is stored"); VP_SAME(a.get_ddist().value(), d, "ddist is stored");
  auto t = a.get_dlat_dlon_ddist();
  VP_SAME(std::get<0>(t).value(), la, "tuple dlat"); VP_SAME(std::get<1>(t).value(), lo, "tuple dlon"); VP_SAME(std::get<2>(t).value(), d, "tuple ddist");
  S b(a), c(a), e(a), f(a);
  b.set_dlat(A::from_value(n)); c.set_dlon(A::from_value(n)); e.set_ddist(L::from_value(n)); f.set_dlat_dlon_ddist(A::from_value(lo), A::from_value(la), L::from_value(n));
  VP_SAME(b.get_dlat().value(), n, "set_dlat"); VP_SAME(b.get_dlon().value(), lo, "set_dlat leaves dlon"); VP_SAME(b.get_ddist().value(), d, "set_dlat leaves ddist");
  VP_SAME(c.get_dlat().value(), la, "set_dlon leaves dlat"); VP_SAME(c.get_dlon().value(), n, "set_dlon"); VP_SAME(c.get_ddist().value(), d, "set_dlon leaves ddist");
  VP_SAME(e.get_dlat().value(), la, "set_ddist leaves dlat"); VP_SAME(e.get_dlon().value(), lo, "set_ddist leaves dlon"); VP_SAME(e.get_ddist().value(), n, "set_ddist");
  VP_SAME(f.get_dlat().value(), lo, "set all: dlat"); VP_SAME(f.get_dlon().value(), la, "set all: dlon"); VP_SAME(f.get_ddist().value(), n, "set all: ddist");
}
VP_CONTRACT(C20, spherical_components){ store<sph, rad_q, v_q>(vp_coord("la"), vp_coord("lo"), vp_coord("d"), vp_coord("n")); }
VP_CONTRACT(C20, equatorial_components){ store<equ, rad_q, v_q>(vp_coord("la"), vp_coord("lo"), vp_coord("d"), vp_coord("n")); }
VP_CONTRACT(C20, degree_components){ store<spherical_differential<double, deg_q, deg_q, kv_q>, deg_q, kv_q>(vp_coord("la"), vp_coord("lo"), vp_coord("d"), vp_coord("n")); }
VP_CONTRACT(C20, degree_equatorial_components){ store<spherical_equatorial_differential<double, deg_q, deg_q, kv_q>, deg_q, kv_q>(vp_coord("la"), vp_coord("lo"), vp_coord("d"), vp_coord("n")); }
VP_CONTRACT(C20, coslat_components){
  double la = vp_coord("la"), lo = vp_coord("lo"), d = vp_coord("d"), n = vp_coord("n");
  const auto a = make_spherical_coslat_differential(deg(la), rad(lo), kvel(d));
  VP_SAME(a.get_dlat().value(), la, "dlat is stored"); VP_SAME(a.get_dlon_coslat().value(), lo, "dlon_coslat is stored"); VP_SAME(a.get_ddist().value(), d, "ddist is stored");
  auto t = a.get_dlat_dlon_coslat_ddist();
  VP_SAME(std::get<0>(t).value(), la, "tuple dlat"); VP_SAME(std::get<1>(t).value(), lo, "tuple dlon_coslat"); VP_SAME(std::get<2>(t).value(), d, "tuple ddist");
  auto b(a), c(a), e(a), f(a);
  b.set_dlat(deg(n)); c.set_dlon_coslat(rad(n)); e.set_ddist(kvel(n)); f.set_dlat_dlon_coslat_ddist(deg(lo), rad(la), kvel(n));
  VP_SAME(b.get_dlat().value(), n, "set_dlat"); VP_SAME(b.get_dlon_coslat().value(), lo, "set_dlat leaves dlon_coslat"); VP_SAME(b.get_ddist().value(), d, "set_dlat leaves ddist");
  VP_SAME(c.get_dlat().value(), la, "set_dlon_coslat leaves dlat"); VP_SAME(c.get_dlon_coslat().value(), n, "set_dlon_coslat"); VP_SAME(c.get_ddist().value(), d, "set_dlon_coslat leaves ddist");
  VP_SAME(e.get_dlat().value(), la, "set_ddist leaves dlat"); VP_SAME(e.get_dlon_coslat().value(), lo, "set_ddist leaves dlon_coslat"); VP_SAME(e.get_ddist().value(), n, "set_ddist");
  VP_SAME(f.get_dlat().value(), lo, "set all: dlat"); VP_SAME(f.get_dlon_coslat().value(), la, "set all: dlon_coslat"); VP_SAME(f.get_ddist().value(), n, "set all: ddist");
}
VP_CONTRACT(C20, unit_conversions){
  double la = vp_coord("la"), lo = vp_coord("lo"), d = vp_coord("d");
  auto b = make_spherical_differential<double, deg_q, rad_q, kv_q>(make_spherical_differential(rad(la), deg(lo), vel(d)));
  VP_SAME(b.get_dlat().value() * (VPI / 180), la, "spherical: radian to degree"); VP_SAME(b.get_dlon().value(), lo * (VPI / 180), "spherical: degree to radian"); VP_SAME(b.get_ddist().value() * 1000, d, "spherical: m/s to km/s");
  auto e = make_spherical_equatorial_differential<double, deg_q, rad_q, kv_q>(make_spherical_equatorial_differential(rad(la), deg(lo), vel(d)));
  VP_SAME(e.get_dlat().value() * (VPI / 180), la, "equatorial: radian to degree"); VP_SAME(e.get_dlon().value(), lo * (VPI / 180), "equatorial: degree to radian"); VP_SAME(e.get_ddist().value() * 1000, d, "equatorial: m/s to km/s");
  auto c = make_spherical_coslat_differential<double, deg_q, rad_q, kv_q>(make_spherical_coslat_differential(rad(la), deg(lo), vel(d)));
  VP_SAME(c.get_dlat().value() * (VPI / 180), la, "coslat: radian to degree"); VP_SAME(c.get_dlon_coslat().value(), lo * (VPI / 180), "coslat: degree to radian"); VP_SAME(c.get_ddist().value() * 1000, d, "coslat: m/s to km/s");
}
#define ANG(p) double p##u = vp_real(#p "u", -7, 7), p##v = vp_real(#p "v", -7, 7), p##d = vp_real(#p "d", -10, 10)
VP_CONTRACT(C20, to_cartesian){
  ANG(a);
  auto c = make_cartesian_differential(sph(rad(au), rad(av), vel(ad)));
  VP_SAME(c.get_dx().value(), ad * std::sin(av) * std::cos(au), "spherical dx"); VP_SAME(c.get_dy().value(), ad * std::sin(av) * std::sin(au), "spherical dy"); VP_SAME(c.get_dz().value(), ad * std::cos(av), "spherical dz");
  auto e = make_cartesian_differential(equ(rad(au), rad(av), vel(ad)));
  VP_SAME(e.get_dx().value(), ad * std::cos(av) * std::cos(au), "equatorial dx"); VP_SAME(e.get_dy().value(), ad * std::cos(av) * std::sin(au), "equatorial dy"); VP_SAME(e.get_dz().value(), ad * std::sin(av), "equatorial dz");
  cart k(sph(rad(au), rad(av), vel(ad)));
  VP_SAME(k.get_dx().value(), c.get_dx().value(), "constructor dx"); VP_SAME(k.get_dy().value(), c.get_dy().value(), "constructor dy"); VP_SAME(k.get_dz().value(), c.get_dz().value(), "constructor dz");
  auto t = equ(rad(au), rad(av), vel(ad)).to_differential<cart>();
  VP_SAME(t.get_dx().value(), e.get_dx().value(), "to_differential dx"); VP_SAME(t.get_dy().value(), e.get_dy().value(), "to_differential dy"); VP_SAME(t.get_dz().value(), e.get_dz().value(), "to_differential dz");
}
VP_CONTRACT(C20, spherical_roundtrip){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), w = vp_real("w", -1.56, 1.56), d = vp_len("d");
  auto b = make_spherical_differential(make_cartesian_differential(sph(rad(u), rad(v), vel(d))));
  VP_SAME(b.get_dlat().value(), u, "spherical: first angle survives"); VP_SAME(b.get_dlon().value(), v, "spherical: second angle survives"); VP_SAME(b.get_ddist().value(), d, "spherical: distance survives");
  auto e = make_spherical_equatorial_differential(make_cartesian_differential(equ(rad(u), rad(w), vel(d))));
  VP_SAME(e.get_dlat().value(), u, "equatorial: first angle survives"); VP_SAME(e.get_dlon().value(), w, "equatorial: second angle survives"); VP_SAME(e.get_ddist().value(), d, "equatorial: distance survives");
  sph k(make_cartesian_differential(sph(rad(u), rad(v), vel(d))));
  VP_SAME(k.get_dlat().value(), u, "constructor: first angle"); VP_SAME(k.get_dlon().value(), v, "constructor: second angle"); VP_SAME(k.get_ddist().value(), d, "constructor: distance");
}
VP_CONTRACT(C20, cartesian_roundtrip){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  VP_REQUIRES(x * x + y * y > 1e-4);
  cart c(vel(x), vel(y), vel(z));
  auto b = make_cartesian_differential(make_spherical_differential(c));
  VP_SAME(b.get_dx().value(), x, "dx survives spherical"); VP_SAME(b.get_dy().value(), y, "dy survives spherical"); VP_SAME(b.get_dz().value(), z, "dz survives spherical");
  auto e = make_cartesian_differential(make_spherical_equatorial_differential(c));
  VP_SAME(e.get_dx().value(), x, "dx survives equatorial"); VP_SAME(e.get_dy().value(), y, "dy survives equatorial"); VP_SAME(e.get_dz().value(), z, "dz survives equatorial");
}
VP_CONTRACT(C20, coslat_meaning){
  // (a, b, d) spherical is stored as (a, b cos a, d)
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d");
  sph s(rad(u), rad(v), vel(d));
  auto c = make_spherical_coslat_differential(s);
  VP_SAME(c.get_dlat().value(), u, "coslat keeps dlat"); VP_SAME(c.get_dlon_coslat().value(), v * std::cos(u), "coslat stores dlon cos dlat"); VP_SAME(c.get_ddist().value(), d, "coslat keeps ddist");
  coslat_t k(s);
  VP_SAME(k.get_dlat().value(), u, "coslat constructor keeps dlat"); VP_SAME(k.get_dlon_coslat().value(), v * std::cos(u), "coslat constructor stores dlon cos dlat"); VP_SAME(k.get_ddist().value(), d, "coslat constructor keeps ddist");
}
VP_CONTRACT(C20, coslat_to_cartesian){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", -3, 3), d = vp_coord("d");
  double cu = std::cos(u);
  VP_REQUIRES(cu * cu > 1e-2);
  auto c = make_cartesian_differential(coslat_t(rad(u), rad(v * cu), vel(d)));
  VP_SAME(c.get_dx().value(), d * std::sin(v) * std::cos(u), "coslat dx"); VP_SAME(c.get_dy().value(), d * std::sin(v) * std::sin(u), "coslat dy"); VP_SAME(c.get_dz().value(), d * std::cos(v), "coslat dz");
}
VP_CONTRACT(C20, cartesian_sum){
  double a = vp_coord("a"), b = vp_coord("b"), c = vp_coord("c"), x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  auto s = make_cartesian_differential(vel(a), kvel(b), vel(c)) + make_cartesian_differential(kvel(x), vel(y), vel(z));
  VP_SAME(s.get_dx().value(), a + 1000 * x, "sum dx"); VP_SAME(s.get_dy().value() * 1000, 1000 * b + y, "sum dy"); VP_SAME(s.get_dz().value(), c + z, "sum dz");
}
VP_CONTRACT(C20, spherical_sum){
  ANG(a); ANG(b);
  double sx = ad * std::sin(av) * std::cos(au) + bd * std::sin(bv) * std::cos(bu), sy = ad * std::sin(av) * std::sin(au) + bd * std::sin(bv) * std::sin(bu);
  VP_REQUIRES(sx * sx + sy * sy > 1e-3);
  auto c = make_cartesian_differential(sph(rad(au), rad(av), vel(ad)) + sph(rad(bu), rad(bv), vel(bd)));
  VP_SAME(c.get_dx().value(), sx, "spherical sum dx"); VP_SAME(c.get_dy().value(), sy, "spherical sum dy"); VP_SAME(c.get_dz().value(), ad * std::cos(av) + bd * std::cos(bv), "spherical sum dz");
}
VP_CONTRACT(C20, equatorial_sum){
  ANG(a); ANG(b);
  double sx = ad * std::cos(av) * std::cos(au) + bd * std::cos(bv) * std::cos(bu), sy = ad * std::cos(av) * std::sin(au) + bd * std::cos(bv) * std::sin(bu);
  VP_REQUIRES(sx * sx + sy * sy > 1e-3);
  auto c = make_cartesian_differential(equ(rad(au), rad(av), vel(ad)) + equ(rad(bu), rad(bv), vel(bd)));
  VP_SAME(c.get_dx().value(), sx, "equatorial sum dx"); VP_SAME(c.get_dy().value(), sy, "equatorial sum dy"); VP_SAME(c.get_dz().value(), ad * std::sin(av) + bd * std::sin(bv), "equatorial sum dz");
}
VP_CONTRACT(C20, coslat_sum){
  // the sum is the coslat form of the cartesian vector sum (coslat_meaning and coslat_to_cartesian say what that form is)
  double u = vp_real("u", -3.1, 3.1), v = vp_real("v", 0.1, 3), d = vp_real("d", 0.1, 10), x = vp_real("x", -10, 10), y = vp_real("y", -10, 10), z = vp_real("z", -10, 10);
  double cu = std::cos(u), px = d * std::sin(v) * std::cos(u) + x, py = d * std::sin(v) * std::sin(u) + y, pz = d * std::cos(v) + z;
  VP_REQUIRES(cu * cu > 1e-2 && px * px > 1e-2);
  auto c = coslat_t(rad(u), rad(v * cu), vel(d)) + cart(vel(x), vel(y), vel(z));
  auto e = make_spherical_differential(cart(vel(px), vel(py), vel(pz)));
  VP_SAME(c.get_dlat().value(), e.get_dlat().value(), "coslat sum dlat"); VP_SAME(c.get_dlon_coslat().value(), e.get_dlon().value() * std::cos(e.get_dlat().value()), "coslat sum dlon_coslat"); VP_SAME(c.get_ddist().value(), e.get_ddist().value(), "coslat sum ddist");
}
VP_CONTRACT(C20, cartesian_product){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z"), t = vp_coord("t");
  auto p = make_cartesian_differential(vel(x), vel(y), vel(z)) * s_q::from_value(t);
  VP_SAME(static_cast<m_q>(p.get_dx()).value(), x * t, "velocity times time dx"); VP_SAME(static_cast<m_q>(p.get_dy()).value(), y * t, "velocity times time dy"); VP_SAME(static_cast<m_q>(p.get_dz()).value(), z * t, "velocity times time dz");
}
VP_CONTRACT(C20, spherical_product){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), w = vp_real("w", -1.56, 1.56), d = vp_len("d"), t = vp_coord("t");
  auto p = sph(rad(u), rad(v), vel(d)) * s_q::from_value(t);
  VP_SAME(p.get_dlat().value(), u, "spherical product keeps the direction"); VP_SAME(p.get_dlon().value(), v, "spherical product keeps the direction"); VP_SAME(static_cast<m_q>(p.get_ddist()).value(), d * t, "spherical product scales the length");
  auto q = equ(rad(u), rad(w), vel(d)) * s_q::from_value(t);
  VP_SAME(q.get_dlat().value(), u, "equatorial product keeps the direction"); VP_SAME(q.get_dlon().value(), w, "equatorial product keeps the direction"); VP_SAME(static_cast<m_q>(q.get_ddist()).value(), d * t, "equatorial product scales the length");
}
VP_CONTRACT(C20, coslat_product){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", -3.1, 3.1), d = vp_len("d"), t = vp_coord("t");
  auto p = coslat_t(rad(u), rad(v), vel(d)) * s_q::from_value(t);
  VP_SAME(p.get_dlat().value(), u, "coslat product keeps the direction"); VP_SAME(p.get_dlon_coslat().value(), v, "coslat product keeps the direction"); VP_SAME(static_cast<m_q>(p.get_ddist()).value(), d * t, "coslat product scales the length");
}
VP_CONTRACT(C20, magnitude){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z"); ANG(a);
  double m = cart(vel(x), vel(y), vel(z)).magnitude();
  VP_SAME(m * m, x * x + y * y + z * z, "magnitude squared is the sum of squares");
  VP_ENSURES(m >= 0, "magnitude is not negative");
  double k = sph(rad(au), rad(av), vel(ad)).magnitude();
  VP_SAME(k * k, ad * ad, "spherical magnitude is |d|");
  double e = equ(rad(au), rad(av), vel(ad)).magnitude();
  VP_SAME(e * e, ad * ad, "equatorial magnitude is |d|");
  VP_ENSURES(k >= 0 && e >= 0, "magnitude is not negative");
}
VP_CONTRACT(C20, unit_vector){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  VP_REQUIRES(x * x + y * y + z * z > 1e-3);
  cart c(vel(x), vel(y), vel(z));
  auto r = c.unit_vector<cart>();
  double m = c.magnitude();
  VP_SAME(r.get_dx().value() * m, x, "unit vector direction x"); VP_SAME(r.get_dy().value() * m, y, "unit vector direction y"); VP_SAME(r.get_dz().value() * m, z, "unit vector direction z");
}
VP_CONTRACT(C20, equality){
  double a = vp_coord("a"), b = vp_coord("b"), c = vp_coord("c"), x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  cart p(vel(a), vel(b), vel(c)), q(vel(x), vel(y), vel(z)), r(p);
  bool same = a == x && b == y && c == z;
  VP_ENSURES(p == r, "equal to its copy"); VP_ENSURES((p == q) == same, "equal exactly when all components agree"); VP_ENSURES((q == p) == same, "equality is symmetric");
}

// ---- every operation in mixed units: the three components of each operand have different units ------
typedef vbu::quantity<vbu::divide_typeof_helper<cm_u, vsi::time>::type> cv_q;
inline cv_q cvel(double v){ return cv_q::from_value(v); }
inline double sv(v_q q){ return q.value(); }
inline double sv(kv_q q){ return q.value() * 1000; }
inline double sv(cv_q q){ return q.value() / 100; }
typedef cartesian_differential<double, v_q, kv_q, cv_q> cart_a;
typedef cartesian_differential<double, kv_q, cv_q, v_q> cart_b;
typedef spherical_differential<double, rad_q, deg_q, cv_q> sph_a;
typedef spherical_differential<double, deg_q, rad_q, kv_q> sph_b;
typedef spherical_equatorial_differential<double, rad_q, deg_q, cv_q> equ_a;
typedef spherical_equatorial_differential<double, deg_q, rad_q, kv_q> equ_b;
typedef spherical_coslat_differential<double, rad_q, deg_q, cv_q> col_a;
typedef spherical_coslat_differential<double, deg_q, rad_q, kv_q> col_b;
template <class T> static void at(T const& t, double x, double y, double z){
  VP_SAME(sv(t.get_dx()), x, "dx of the same vector"); VP_SAME(sv(t.get_dy()), y, "dy of the same vector"); VP_SAME(sv(t.get_dz()), z, "dz of the same vector");
}
template <class T> static void at_angles(T const& t, double u, double v, double d){
  VP_SAME(si(t.get_dlat()), u, "first angle of the same vector"); VP_SAME(si(t.get_dlon()), v, "second angle of the same vector"); VP_SAME(sv(t.get_ddist()), d, "length of the same vector");
}
template <class T> static void at_coslat(T const& t, double u, double v, double d){
  VP_SAME(si(t.get_dlat()), u, "dlat of the same vector"); VP_SAME(si(t.get_dlon_coslat()), v, "dlon_coslat of the same vector"); VP_SAME(sv(t.get_ddist()), d, "ddist of the same vector");
}
VP_CONTRACT(C20, units_same_form){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  cart_a a(vel(x), kvel(y), cvel(z)); cart_b b(a); at(b, x, y * 1000, z / 100); at(cart_a(b), x, y * 1000, z / 100); at(make_cartesian_differential<double, cv_q, v_q, kv_q>(a), x, y * 1000, z / 100); at(make_cartesian_differential(a), x, y * 1000, z / 100);
  double rx = x, ry = y * (VPI / 180), rz = z / 100;
  sph_a s(rad(x), deg(y), cvel(z)); sph_b t(s); at_angles(t, rx, ry, rz); at_angles(sph_a(t), rx, ry, rz); at_angles(make_spherical_differential<double, deg_q, rad_q, v_q>(s), rx, ry, rz); at_angles(make_spherical_differential(s), rx, ry, rz);
  equ_a e(rad(x), deg(y), cvel(z)); equ_b f(e); at_angles(f, rx, ry, rz); at_angles(equ_a(f), rx, ry, rz); at_angles(make_spherical_equatorial_differential<double, deg_q, rad_q, v_q>(e), rx, ry, rz); at_angles(make_spherical_equatorial_differential(e), rx, ry, rz);
  col_a c(rad(x), deg(y), cvel(z)); col_b d(c); at_coslat(d, rx, ry, rz); at_coslat(col_a(d), rx, ry, rz); at_coslat(make_spherical_coslat_differential<double, deg_q, rad_q, v_q>(c), rx, ry, rz); at_coslat(make_spherical_coslat_differential(c), rx, ry, rz);
}
VP_CONTRACT(C20, units_between_angular_forms){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.5, 179.5), d = vp_len("d"), rv = v * (VPI / 180);
  sph_a s(rad(u), deg(v), cvel(d));
  equ_b e(s); at_angles(e, u, VPI / 2 - rv, d / 100);
  sph_b b(e); at_angles(b, u, rv, d / 100);
  at_angles(make_spherical_equatorial_differential(s), u, VPI / 2 - rv, d / 100);
  at_angles(make_spherical_differential(e), u, rv, d / 100);
}
VP_CONTRACT(C20, units_coslat){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.5, 179.5), d = vp_len("d"), rv = v * (VPI / 180), cu = std::cos(u);
  sph_a s(rad(u), deg(v), cvel(d));
  at_coslat(col_b(s), u, rv * cu, d / 100); at_coslat(make_spherical_coslat_differential(s), u, rv * cu, d / 100);
  equ_a e(rad(u), deg(90 - v), cvel(d));
  at_coslat(col_b(e), u, rv * cu, d / 100); at_coslat(make_spherical_coslat_differential(e), u, rv * cu, d / 100);
}
VP_CONTRACT(C20, units_coslat_degrees){
  double u = vp_real("u", -179, 179), v = vp_real("v", 0.01, 3.13), d = vp_len("d"), ru = u * (VPI / 180), cu = std::cos(ru);
  sph_b s(deg(u), rad(v), kvel(d));
  at_coslat(col_a(s), ru, v * cu, d * 1000); at_coslat(make_spherical_coslat_differential(s), ru, v * cu, d * 1000);
  equ_b e(deg(u), rad(VPI / 2 - v), kvel(d));
  at_coslat(col_a(e), ru, v * cu, d * 1000); at_coslat(make_spherical_coslat_differential(e), ru, v * cu, d * 1000);
}
VP_CONTRACT(C20, units_from_coslat_degrees){
  double u = vp_real("u", -179, 179), v = vp_real("v", 0.01, 3.13), d = vp_len("d"), ru = u * (VPI / 180), cu = std::cos(ru);
  VP_REQUIRES(cu * cu > 1e-2);
  col_b c(deg(u), rad(v * cu), kvel(d));
  at(cart_b(c), 1000 * d * std::sin(v) * std::cos(ru), 1000 * d * std::sin(v) * std::sin(ru), 1000 * d * std::cos(v));
  at_angles(sph_a(c), ru, v, 1000 * d); at_angles(make_spherical_equatorial_differential(c), ru, VPI / 2 - v, 1000 * d);
}
VP_CONTRACT(C20, units_from_coslat){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.5, 179.5), d = vp_len("d"), rv = v * (VPI / 180), cu = std::cos(u);
  VP_REQUIRES(cu * cu > 1e-2);
  col_a c(rad(u), deg(v * cu), cvel(d));
  double m = d / 100;
  at(cart_b(c), m * std::sin(rv) * std::cos(u), m * std::sin(rv) * std::sin(u), m * std::cos(rv));
  at(make_cartesian_differential(c), m * std::sin(rv) * std::cos(u), m * std::sin(rv) * std::sin(u), m * std::cos(rv));
  at_angles(sph_b(c), u, rv, m); at_angles(make_spherical_differential(c), u, rv, m);
  at_angles(equ_b(c), u, VPI / 2 - rv, m); at_angles(make_spherical_equatorial_differential(c), u, VPI / 2 - rv, m);
}
VP_CONTRACT(C20, units_to_cartesian){
  double u = vp_real("u", -7, 7), v = vp_real("v", -400, 400), d = vp_coord("d"), rv = v * (VPI / 180), m = d / 100;
  sph_a s(rad(u), deg(v), cvel(d));
  at(cart_b(s), m * std::sin(rv) * std::cos(u), m * std::sin(rv) * std::sin(u), m * std::cos(rv));
  at(make_cartesian_differential(s), m * std::sin(rv) * std::cos(u), m * std::sin(rv) * std::sin(u), m * std::cos(rv));
  equ_a e(rad(u), deg(v), cvel(d));
  at(cart_b(e), m * std::cos(rv) * std::cos(u), m * std::cos(rv) * std::sin(u), m * std::sin(rv));
  at(make_cartesian_differential(e), m * std::cos(rv) * std::cos(u), m * std::cos(rv) * std::sin(u), m * std::sin(rv));
}
VP_CONTRACT(C20, units_to_cartesian_degrees){
  double u = vp_real("u", -400, 400), v = vp_real("v", -7, 7), d = vp_coord("d"), ru = u * (VPI / 180), m = d * 1000;
  sph_b s(deg(u), rad(v), kvel(d)); equ_b e(deg(u), rad(v), kvel(d));
  at(make_cartesian_differential(s), m * std::sin(v) * std::cos(ru), m * std::sin(v) * std::sin(ru), m * std::cos(v));
  at(cart_a(e), m * std::cos(v) * std::cos(ru), m * std::cos(v) * std::sin(ru), m * std::sin(v));
}
#define TURN double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d"); \
  double x = d * std::sin(v) * std::cos(u), y = d * std::sin(v) * std::sin(u), z = d * std::cos(v); \
  cart_a c(vel(x), kvel(y / 1000), cvel(z * 100)); cart_b k(kvel(x / 1000), cvel(y * 100), vel(z));
VP_CONTRACT(C20, units_from_cartesian){ TURN
  at_angles(sph_b(c), u, v, d); at_angles(make_spherical_differential(c), u, v, d); at_angles(make_spherical_differential(k), u, v, d);
}
VP_CONTRACT(C20, units_from_cartesian_equatorial){ TURN
  at_angles(equ_b(c), u, VPI / 2 - v, d); at_angles(make_spherical_equatorial_differential(c), u, VPI / 2 - v, d); at_angles(make_spherical_equatorial_differential(k), u, VPI / 2 - v, d);
}
VP_CONTRACT(C20, units_from_cartesian_coslat){ TURN
  at_coslat(col_b(c), u, v * std::cos(u), d); at_coslat(make_spherical_coslat_differential(c), u, v * std::cos(u), d); at_coslat(make_spherical_coslat_differential(k), u, v * std::cos(u), d);
}
VP_CONTRACT(C20, units_sum){
  double a = vp_coord("a"), b = vp_coord("b"), c = vp_coord("c"), u = vp_real("u", -7, 7), v = vp_real("v", -400, 400), d = vp_coord("d"), rv = v * (VPI / 180), m = d / 100;
  cart_b p(kvel(a), cvel(b), vel(c));
  at(p + sph_a(rad(u), deg(v), cvel(d)), 1000 * a + m * std::sin(rv) * std::cos(u), b / 100 + m * std::sin(rv) * std::sin(u), c + m * std::cos(rv));
  at(p + equ_a(rad(u), deg(v), cvel(d)), 1000 * a + m * std::cos(rv) * std::cos(u), b / 100 + m * std::cos(rv) * std::sin(u), c + m * std::sin(rv));
  at(p + cart_a(vel(a), kvel(b), cvel(c)), 1001 * a, b / 100 + 1000 * b, c + c / 100);
}
VP_CONTRACT(C20, units_spherical_sum){
  double u = vp_real("u", -7, 7), v = vp_real("v", -400, 400), d = vp_real("d", -1000, 1000), x = vp_real("x", -10, 10), y = vp_real("y", -0.01, 0.01), z = vp_real("z", -1000, 1000);
  double rv = v * (VPI / 180), m = d / 100, sx = m * std::sin(rv) * std::cos(u) + x, sy = m * std::sin(rv) * std::sin(u) + y * 1000;
  VP_REQUIRES(sx * sx + sy * sy > 1e-3);
  at(make_cartesian_differential(sph_a(rad(u), deg(v), cvel(d)) + cart_a(vel(x), kvel(y), cvel(z))), sx, sy, m * std::cos(rv) + z / 100);
}
VP_CONTRACT(C20, units_equatorial_sum){
  double u = vp_real("u", -7, 7), v = vp_real("v", -400, 400), d = vp_real("d", -1000, 1000), x = vp_real("x", -10, 10), y = vp_real("y", -0.01, 0.01), z = vp_real("z", -1000, 1000);
  double rv = v * (VPI / 180), m = d / 100, sx = m * std::cos(rv) * std::cos(u) + x, sy = m * std::cos(rv) * std::sin(u) + y * 1000;
  VP_REQUIRES(sx * sx + sy * sy > 1e-3);
  at(make_cartesian_differential(equ_a(rad(u), deg(v), cvel(d)) + cart_a(vel(x), kvel(y), cvel(z))), sx, sy, m * std::sin(rv) + z / 100);
}
VP_CONTRACT(C20, units_product){
  double x = vp_real("x", -3.1, 3.1), y = vp_real("y", -3.1, 3.1), z = vp_len("z"), t = vp_coord("t");
  auto h = vbu::quantity<vbu::metric::hour_base_unit::unit_type>::from_value(t);
  auto p = cart_a(vel(x), kvel(y), cvel(z)) * h;
  VP_SAME(static_cast<m_q>(p.get_dx()).value(), x * 3600 * t, "m/s times hours"); VP_SAME(static_cast<m_q>(p.get_dy()).value(), y * 3600000 * t, "km/s times hours"); VP_SAME(static_cast<m_q>(p.get_dz()).value(), z * 36 * t, "cm/s times hours");
  double w = vp_real("w", 0.5, 179.5), q = vp_real("q", -89.5, 89.5);
  auto s = sph_a(rad(x), deg(w), cvel(z)) * h;
  VP_SAME(s.get_dlat().value(), x, "spherical product in mixed units keeps the direction"); VP_SAME(s.get_dlon().value(), w, "spherical product in mixed units keeps the direction"); VP_SAME(static_cast<m_q>(s.get_ddist()).value(), z * 36 * t, "spherical product in mixed units scales the length");
  auto e = equ_a(rad(x), deg(q), cvel(z)) * h;
  VP_SAME(e.get_dlat().value(), x, "equatorial product in mixed units keeps the direction"); VP_SAME(e.get_dlon().value(), q, "equatorial product in mixed units keeps the direction"); VP_SAME(static_cast<m_q>(e.get_ddist()).value(), z * 36 * t, "equatorial product in mixed units scales the length");
  auto c = col_a(rad(x), deg(w), cvel(z)) * h;
  VP_SAME(c.get_dlat().value(), x, "coslat product in mixed units keeps the direction"); VP_SAME(c.get_dlon_coslat().value(), w, "coslat product in mixed units keeps the direction"); VP_SAME(static_cast<m_q>(c.get_ddist()).value(), z * 36 * t, "coslat product in mixed units scales the length");
}
// ---- from plain points -----------------------------------------------------------------------------
namespace vbg = boost::geometry;
typedef vbg::model::point<double, 3, vbg::cs::cartesian> pc;
typedef vbg::model::point<double, 3, vbg::cs::spherical<vbg::radian>> pr;
typedef vbg::model::point<double, 3, vbg::cs::spherical_equatorial<vbg::radian>> pe;
VP_CONTRACT(C20, from_cartesian_point){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  cart c(pc(x, y, z)); at(c, x, y, z);
  at(make_cartesian_differential<double, v_q, v_q, v_q>(pc(x, y, z)), x, y, z);
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d");
  pc p(d * std::sin(v) * std::cos(u), d * std::sin(v) * std::sin(u), d * std::cos(v));
  at_angles(sph(p), u, v, d); at_angles(equ(p), u, VPI / 2 - v, d);
  at_angles(make_spherical_differential<double, rad_q, rad_q, v_q>(p), u, v, d); at_angles(make_spherical_equatorial_differential<double, rad_q, rad_q, v_q>(p), u, VPI / 2 - v, d);
}
VP_CONTRACT(C20, from_spherical_point){
  double u = vp_real("u", -3.14, 3.14), v = vp_real("v", 0.01, 3.13), d = vp_len("d");
  at(cart(pr(u, v, d)), d * std::sin(v) * std::cos(u), d * std::sin(v) * std::sin(u), d * std::cos(v));
  at(cart(pe(u, VPI / 2 - v, d)), d * std::sin(v) * std::cos(u), d * std::sin(v) * std::sin(u), d * std::cos(v));
  at_angles(sph(pr(u, v, d)), u, v, d); at_angles(equ(pr(u, v, d)), u, VPI / 2 - v, d);
  at_angles(sph(pe(u, VPI / 2 - v, d)), u, v, d); at_angles(equ(pe(u, VPI / 2 - v, d)), u, VPI / 2 - v, d);
}
// ---- to_differential into other units (known finding: the base class does not know the units of its components)
VP_CONTRACT(C20, kf_to_differential_units){
  double x = vp_coord("x"), y = vp_coord("y"), z = vp_coord("z");
  at(cart(vel(x), vel(y), vel(z)).to_differential<cartesian_differential<double, kv_q, kv_q, kv_q>>(), x, y, z);
}
