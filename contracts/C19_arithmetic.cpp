// C19: vector arithmetic on representations is the vector algebra of the points they stand for, in every unit
#include "coord.hpp"
#include <boost/astronomy/coordinate/arithmetic.hpp>
using namespace boost::astronomy::coordinate;
typedef cartesian_representation<double, m_q, m_q, m_q> cart;
typedef spherical_representation<double, rad_q, rad_q, m_q> sph;
typedef spherical_equatorial_representation<double, rad_q, rad_q, m_q> equ;
#define VEC(p) double p##x = vp_coord(#p "x"), p##y = vp_coord(#p "y"), p##z = vp_coord(#p "z")
#define ANG(p) double p##u = vp_real(#p "u", -7, 7), p##v = vp_real(#p "v", -7, 7), p##d = vp_real(#p "d", -10, 10)
template <class Q> static double met_of(Q const& q){ return static_cast<m_q>(q).value(); }
template <class Q> static double sq_of(Q const& q){ return static_cast<vbu::quantity<vsi::area>>(q).value(); }

VP_CONTRACT(C19, dot_cartesian){
  VEC(a); VEC(b);
  auto r = dot(make_cartesian_representation(met(ax), kmt(ay), met(az)), make_cartesian_representation(kmt(bx), met(by), kmt(bz)));
  VP_SAME(sq_of(r), ax * 1000 * bx + 1000 * ay * by + az * 1000 * bz, "dot product in mixed units");
}
VP_CONTRACT(C19, dot_laws){
  VEC(a); VEC(b); VEC(c); double k = vp_real("k", -10, 10);
  cart a(met(ax), met(ay), met(az)), b(met(bx), met(by), met(bz)), c(met(cx), met(cy), met(cz)), ka(met(k * ax), met(k * ay), met(k * az));
  VP_SAME(dot(a, b).value(), ax * bx + ay * by + az * bz, "dot product");
  VP_SAME(dot(a, b).value(), dot(b, a).value(), "dot is symmetric");
  VP_SAME(dot(ka, b).value(), k * dot(a, b).value(), "dot is linear in the first argument");
  VP_SAME(dot(sum(a, c), b).value(), dot(a, b).value() + dot(c, b).value(), "dot distributes over sum");
}
VP_CONTRACT(C19, dot_spherical){
  ANG(a); ANG(b);
  sph a(rad(au), rad(av), met(ad)), b(rad(bu), rad(bv), met(bd));
  VP_SAME(dot(a, b).value(), ad * bd * (std::sin(av) * std::sin(bv) * std::cos(au - bu) + std::cos(av) * std::cos(bv)), "dot of spherical vectors");
  equ e(rad(au), rad(av), met(ad)), f(rad(bu), rad(bv), met(bd));
  VP_SAME(dot(e, f).value(), ad * bd * (std::cos(av) * std::cos(bv) * std::cos(au - bu) + std::sin(av) * std::sin(bv)), "dot of equatorial vectors");
  VP_SAME(dot(a, f).value(), ad * bd * (std::sin(av) * std::cos(bv) * std::cos(au - bu) + std::cos(av) * std::sin(bv)), "dot across systems");
}
VP_CONTRACT(C19, cross_cartesian){
  VEC(a); VEC(b);
  auto r = cross(make_cartesian_representation(met(ax), met(ay), met(az)), make_cartesian_representation(met(bx), met(by), met(bz)));
  VP_SAME(sq_of(r.get_x()), ay * bz - az * by, "cross x"); VP_SAME(sq_of(r.get_y()), az * bx - ax * bz, "cross y"); VP_SAME(sq_of(r.get_z()), ax * by - ay * bx, "cross z");
  VP_SAME(ax * sq_of(r.get_x()) + ay * sq_of(r.get_y()) + az * sq_of(r.get_z()), 0.0, "cross is orthogonal to the first operand");
  VP_SAME(bx * sq_of(r.get_x()) + by * sq_of(r.get_y()) + bz * sq_of(r.get_z()), 0.0, "cross is orthogonal to the second operand");
}
VP_CONTRACT(C19, cross_cartesian_units){
  VEC(a); VEC(b);
  auto r = cross(make_cartesian_representation(met(ax), kmt(ay), met(az)), make_cartesian_representation(kmt(bx), met(by), kmt(bz)));
  const double k = 1000;
  VP_SAME(sq_of(r.get_x()), k * ay * k * bz - az * by, "cross x in mixed units"); VP_SAME(sq_of(r.get_y()), az * k * bx - ax * k * bz, "cross y in mixed units"); VP_SAME(sq_of(r.get_z()), ax * by - k * ay * k * bx, "cross z in mixed units");
}
VP_CONTRACT(C19, cross_cartesian_with_spherical){
  VEC(a); ANG(b);
  auto r = cross(make_cartesian_representation(met(ax), met(ay), met(az)), sph(rad(bu), rad(bv), met(bd)));
  double bx = bd * std::sin(bv) * std::cos(bu), by = bd * std::sin(bv) * std::sin(bu), bz = bd * std::cos(bv);
  VP_SAME(sq_of(r.get_x()), ay * bz - az * by, "cartesian x spherical: x"); VP_SAME(sq_of(r.get_y()), az * bx - ax * bz, "cartesian x spherical: y"); VP_SAME(sq_of(r.get_z()), ax * by - ay * bx, "cartesian x spherical: z");
}
VP_CONTRACT(C19, cross_spherical){
  ANG(a); ANG(b);
  double ax = ad * std::sin(av) * std::cos(au), ay = ad * std::sin(av) * std::sin(au), az = ad * std::cos(av);
  double bx = bd * std::sin(bv) * std::cos(bu), by = bd * std::sin(bv) * std::sin(bu), bz = bd * std::cos(bv);
  double cx = ay * bz - az * by, cy = az * bx - ax * bz, cz = ax * by - ay * bx;
  VP_REQUIRES(cx * cx + cy * cy > 1e-3);
  auto r = cross(sph(rad(au), rad(av), met(ad)), sph(rad(bu), rad(bv), met(bd)));
  auto c = make_cartesian_representation(r);
  VP_SAME(sq_of(c.get_x()), cx, "cross of spherical vectors x"); VP_SAME(sq_of(c.get_y()), cy, "cross of spherical vectors y"); VP_SAME(sq_of(c.get_z()), cz, "cross of spherical vectors z");
}
VP_CONTRACT(C19, cross_spherical_with_mixed_cartesian){
  ANG(a); VEC(b);
  double ax = ad * std::sin(av) * std::cos(au), ay = ad * std::sin(av) * std::sin(au), az = ad * std::cos(av);
  double cx = ay * bz - az * 1000 * by, cy = az * bx - ax * bz, cz = ax * 1000 * by - ay * bx;
  VP_REQUIRES(cx * cx + cy * cy > 1e-3);
  auto r = cross(sph(rad(au), rad(av), met(ad)), make_cartesian_representation(met(bx), kmt(by), met(bz)));
  auto c = make_cartesian_representation(r);
  VP_SAME(sq_of(c.get_x()), cx, "spherical x mixed-unit cartesian: x"); VP_SAME(sq_of(c.get_y()), cy, "spherical x mixed-unit cartesian: y"); VP_SAME(sq_of(c.get_z()), cz, "spherical x mixed-unit cartesian: z");
}
VP_CONTRACT(C19, magnitude_cartesian){
  VEC(a);
  VP_REQUIRES(ax * ax + ay * ay + az * az > 1e-6);
  double m = met_of(magnitude(make_cartesian_representation(met(ax), kmt(ay / 1000), met(az))));
  VP_SAME(m * m, ax * ax + ay * ay + az * az, "magnitude squared is the sum of squares");
  VP_ENSURES(m >= 0, "magnitude is not negative");
}
VP_CONTRACT(C19, magnitude_spherical){
  double u = vp_real("u", -7, 7), v = vp_real("v", -7, 7), d = vp_real("d", 0, 1000);
  VP_SAME(met_of(magnitude(sph(rad(u), rad(v), met(d)))), d, "magnitude of a spherical vector");
  VP_SAME(met_of(magnitude(equ(rad(u), rad(v), met(d)))), d, "magnitude of an equatorial vector");
}
VP_CONTRACT(C19, unit_vector_cartesian){
  VEC(a);
  VP_REQUIRES(ax * ax + ay * ay + az * az > 1e-6);
  auto r = unit_vector(make_cartesian_representation(met(ax), met(ay), met(az)));
  double m = std::sqrt(ax * ax + ay * ay + az * az);
  VP_SAME(r.get_x().value() * m, ax, "unit vector has the direction of the vector (x)"); VP_SAME(r.get_y().value() * m, ay, "unit vector has the direction of the vector (y)"); VP_SAME(r.get_z().value() * m, az, "unit vector has the direction of the vector (z)");
}
VP_CONTRACT(C19, unit_vector_spherical){
  double u = vp_coord("u"), v = vp_coord("v"), d = vp_coord("d");
  auto r = unit_vector(sph(rad(u), rad(v), met(d)));
  VP_SAME(r.get_lat().value(), u, "unit vector keeps the direction"); VP_SAME(r.get_lon().value(), v, "unit vector keeps the direction"); VP_SAME(r.get_dist().value(), 1.0, "unit vector has length one");
  auto e = unit_vector(equ(rad(u), rad(v), met(d)));
  VP_SAME(e.get_lat().value(), u, "equatorial unit vector keeps the direction"); VP_SAME(e.get_lon().value(), v, "equatorial unit vector keeps the direction"); VP_SAME(e.get_dist().value(), 1.0, "equatorial unit vector has length one");
}
VP_CONTRACT(C19, sum_and_mean_cartesian){
  VEC(a); VEC(b);
  auto a = make_cartesian_representation(met(ax), kmt(ay), met(az));
  auto b = make_cartesian_representation(kmt(bx), met(by), met(bz));
  auto s = sum(a, b), m = mean(a, b);
  VP_SAME(s.get_x().value(), ax + 1000 * bx, "sum x"); VP_SAME(s.get_y().value() * 1000, ay * 1000 + by, "sum y"); VP_SAME(s.get_z().value(), az + bz, "sum z");
  VP_SAME(m.get_x().value() * 2, ax + 1000 * bx, "mean x"); VP_SAME(m.get_y().value() * 2000, ay * 1000 + by, "mean y"); VP_SAME(m.get_z().value() * 2, az + bz, "mean z");
}
VP_CONTRACT(C19, sum_spherical){
  ANG(a); ANG(b);
  double sx = ad * std::sin(av) * std::cos(au) + bd * std::sin(bv) * std::cos(bu), sy = ad * std::sin(av) * std::sin(au) + bd * std::sin(bv) * std::sin(bu);
  VP_REQUIRES(sx * sx + sy * sy > 1e-3);
  auto c = make_cartesian_representation(sum(sph(rad(au), rad(av), met(ad)), sph(rad(bu), rad(bv), met(bd))));
  VP_SAME(c.get_x().value(), sx, "sum of spherical vectors x"); VP_SAME(c.get_y().value(), sy, "sum of spherical vectors y"); VP_SAME(c.get_z().value(), ad * std::cos(av) + bd * std::cos(bv), "sum of spherical vectors z");
}
VP_CONTRACT(C19, mean_spherical){
  ANG(a); ANG(b);
  double sx = ad * std::sin(av) * std::cos(au) + bd * std::cos(bv) * std::cos(bu), sy = ad * std::sin(av) * std::sin(au) + bd * std::cos(bv) * std::sin(bu);
  VP_REQUIRES(sx * sx + sy * sy > 1e-3);
  auto c = make_cartesian_representation(mean(sph(rad(au), rad(av), met(ad)), equ(rad(bu), rad(bv), met(bd))));
  VP_SAME(c.get_x().value() * 2, sx, "mean across systems x"); VP_SAME(c.get_y().value() * 2, sy, "mean across systems y"); VP_SAME(c.get_z().value() * 2, ad * std::cos(av) + bd * std::sin(bv), "mean across systems z");
}

// ---- every operation in mixed units: the three components of each operand have different units ------
typedef cartesian_representation<double, m_q, km_q, cm_q> cart_a;
typedef cartesian_representation<double, km_q, cm_q, m_q> cart_b;
typedef spherical_representation<double, rad_q, deg_q, cm_q> sph_a;
typedef spherical_representation<double, deg_q, rad_q, km_q> sph_b;
typedef spherical_equatorial_representation<double, rad_q, deg_q, cm_q> equ_a;
typedef spherical_equatorial_representation<double, deg_q, rad_q, km_q> equ_b;
template <class T> static void at(T const& t, double x, double y, double z){
  VP_SAME(si(t.get_x()), x, "x of the result"); VP_SAME(si(t.get_y()), y, "y of the result"); VP_SAME(si(t.get_z()), z, "z of the result");
}
template <class T> static void sq_at(T const& t, double x, double y, double z){
  VP_SAME(sq_of(t.get_x()), x, "x of the product"); VP_SAME(sq_of(t.get_y()), y, "y of the product"); VP_SAME(sq_of(t.get_z()), z, "z of the product");
}
// a direction in degrees and radians, a distance in centimetres or kilometres
#define DIR(p) double p##u = vp_real(#p "u", -7, 7), p##v = vp_real(#p "v", -400, 400), p##d = vp_real(#p "d", -10, 10), p##r = p##v * (VPI / 180)
VP_CONTRACT(C19, units_dot){
  VEC(a); VEC(b);
  double x = ax, y = 1000 * ay, z = az / 100, X = 1000 * bx, Y = by / 100, Z = bz;
  VP_SAME(sq_of(dot(cart_a(met(ax), kmt(ay), cmt(az)), cart_b(kmt(bx), cmt(by), met(bz)))), x * X + y * Y + z * Z, "dot of m, km, cm with km, cm, m");
  VP_SAME(sq_of(dot(cart_b(kmt(bx), cmt(by), met(bz)), cart_a(met(ax), kmt(ay), cmt(az)))), x * X + y * Y + z * Z, "dot of km, cm, m with m, km, cm");
}
VP_CONTRACT(C19, units_dot_spherical){
  VEC(a); DIR(b);
  double x = ax, y = 1000 * ay, z = az / 100, s = bd / 100 * std::sin(br), c = bd / 100 * std::cos(br);
  cart_a a(met(ax), kmt(ay), cmt(az)); sph_a p(rad(bu), deg(bv), cmt(bd)); equ_a e(rad(bu), deg(bv), cmt(bd));
  VP_SAME(sq_of(dot(a, p)), x * s * std::cos(bu) + y * s * std::sin(bu) + z * c, "dot of a cartesian and a spherical vector in mixed units");
  VP_SAME(sq_of(dot(p, a)), x * s * std::cos(bu) + y * s * std::sin(bu) + z * c, "dot of a spherical and a cartesian vector in mixed units");
  VP_SAME(sq_of(dot(a, e)), x * c * std::cos(bu) + y * c * std::sin(bu) + z * s, "dot of a cartesian and an equatorial vector in mixed units");
  VP_SAME(sq_of(dot(e, a)), x * c * std::cos(bu) + y * c * std::sin(bu) + z * s, "dot of an equatorial and a cartesian vector in mixed units");
  VP_SAME(sq_of(dot(p, e)), bd * bd / 10000 * 2 * std::sin(br) * std::cos(br), "dot across the spherical systems in mixed units");
}
VP_CONTRACT(C19, units_cross){
  VEC(a); VEC(b);
  double x = ax, y = 1000 * ay, z = az / 100, X = 1000 * bx, Y = by / 100, Z = bz;
  sq_at(cross(cart_a(met(ax), kmt(ay), cmt(az)), cart_b(kmt(bx), cmt(by), met(bz))), y * Z - z * Y, z * X - x * Z, x * Y - y * X);
  sq_at(cross(cart_b(kmt(bx), cmt(by), met(bz)), cart_a(met(ax), kmt(ay), cmt(az))), Y * z - Z * y, Z * x - X * z, X * y - Y * x);
}
VP_CONTRACT(C19, units_cross_cartesian_spherical){
  VEC(a); DIR(b);
  double x = ax, y = 1000 * ay, z = az / 100, s = bd / 100 * std::sin(br), c = bd / 100 * std::cos(br);
  double X = s * std::cos(bu), Y = s * std::sin(bu), Z = c;
  sq_at(cross(cart_a(met(ax), kmt(ay), cmt(az)), sph_a(rad(bu), deg(bv), cmt(bd))), y * Z - z * Y, z * X - x * Z, x * Y - y * X);
  X = c * std::cos(bu), Y = c * std::sin(bu), Z = s;
  sq_at(cross(cart_a(met(ax), kmt(ay), cmt(az)), equ_a(rad(bu), deg(bv), cmt(bd))), y * Z - z * Y, z * X - x * Z, x * Y - y * X);
}
VP_CONTRACT(C19, units_cross_spherical){
  DIR(a); VEC(b);
  double s = ad / 100 * std::sin(ar), x = s * std::cos(au), y = s * std::sin(au), z = ad / 100 * std::cos(ar), X = bx, Y = 1000 * by, Z = bz / 100;
  double cx = y * Z - z * Y, cy = z * X - x * Z, cz = x * Y - y * X;
  VP_REQUIRES(cx * cx + cy * cy > 1e-3);
  sq_at(make_cartesian_representation(cross(sph_a(rad(au), deg(av), cmt(ad)), cart_a(met(bx), kmt(by), cmt(bz)))), cx, cy, cz);
}
VP_CONTRACT(C19, units_cross_equatorial){
  DIR(a); VEC(b);
  double s = ad / 100 * std::cos(ar), x = s * std::cos(au), y = s * std::sin(au), z = ad / 100 * std::sin(ar), X = 1000 * bx, Y = by / 100, Z = bz;
  double cx = y * Z - z * Y, cy = z * X - x * Z, cz = x * Y - y * X;
  VP_REQUIRES(cx * cx + cy * cy > 1e-3);
  sq_at(make_cartesian_representation(cross(equ_a(rad(au), deg(av), cmt(ad)), cart_b(kmt(bx), cmt(by), met(bz)))), cx, cy, cz);
}
VP_CONTRACT(C19, units_magnitude){
  VEC(a);
  double x = ax, y = 1000 * ay, z = az / 100;
  VP_REQUIRES(x * x + y * y + z * z > 1e-6);
  double m = met_of(magnitude(cart_a(met(ax), kmt(ay), cmt(az))));
  VP_SAME(m * m, x * x + y * y + z * z, "magnitude in m, km, cm");
  double n = met_of(magnitude(cart_b(kmt(ax), cmt(ay), met(az))));
  VP_SAME(n * n, 1e6 * ax * ax + ay * ay / 1e4 + az * az, "magnitude in km, cm, m");
  VP_ENSURES(m >= 0 && n >= 0, "magnitude is not negative");
  double d = vp_real("d", 0, 1000);
  VP_SAME(met_of(magnitude(sph_a(rad(ax), deg(ay), cmt(d)))), d / 100, "magnitude of a spherical vector in cm");
  VP_SAME(met_of(magnitude(equ_b(deg(ax), rad(ay), kmt(d)))), d * 1000, "magnitude of an equatorial vector in km");
}
VP_CONTRACT(C19, units_unit_vector){
  // the components are numbers: in whatever unit each is labelled, its number is component / length
  VEC(a);
  double x = ax, y = 1000 * ay, z = az / 100;
  VP_REQUIRES(x * x + y * y + z * z > 1e-6);
  auto r = unit_vector(cart_a(met(ax), kmt(ay), cmt(az)));
  double m = std::sqrt(x * x + y * y + z * z);
  VP_SAME(r.get_x().value() * m, x, "unit vector in mixed units: x"); VP_SAME(r.get_y().value() * m, y, "unit vector in mixed units: y"); VP_SAME(r.get_z().value() * m, z, "unit vector in mixed units: z");
  auto e = unit_vector(equ_b(deg(ax), rad(ay), kmt(az)));
  VP_SAME(e.get_lat().value(), ax, "unit vector keeps the angle in degrees"); VP_SAME(e.get_lon().value(), ay, "unit vector keeps the angle in radians"); VP_SAME(e.get_dist().value(), 1.0, "unit vector has length one");
}
VP_CONTRACT(C19, units_sum_and_mean){
  VEC(a); VEC(b);
  double x = ax, y = 1000 * ay, z = az / 100, X = 1000 * bx, Y = by / 100, Z = bz;
  cart_a a(met(ax), kmt(ay), cmt(az)); cart_b b(kmt(bx), cmt(by), met(bz));
  at(sum(a, b), x + X, y + Y, z + Z); at(sum(b, a), x + X, y + Y, z + Z);
  at(mean(a, b), (x + X) / 2, (y + Y) / 2, (z + Z) / 2); at(mean(b, a), (x + X) / 2, (y + Y) / 2, (z + Z) / 2);
}
VP_CONTRACT(C19, units_sum_with_spherical){
  VEC(a); DIR(b);
  double x = ax, y = 1000 * ay, z = az / 100, s = bd / 100 * std::sin(br), c = bd / 100 * std::cos(br), w = std::cos(bu), t = std::sin(bu);
  cart_a a(met(ax), kmt(ay), cmt(az)); sph_a p(rad(bu), deg(bv), cmt(bd)); equ_a e(rad(bu), deg(bv), cmt(bd));
  at(sum(a, p), x + s * w, y + s * t, z + c); at(mean(a, p), (x + s * w) / 2, (y + s * t) / 2, (z + c) / 2);
  at(sum(a, e), x + c * w, y + c * t, z + s); at(mean(a, e), (x + c * w) / 2, (y + c * t) / 2, (z + s) / 2);
}
VP_CONTRACT(C19, units_sum_of_spherical){
  DIR(a); VEC(b);
  double s = ad / 100 * std::sin(ar), x = s * std::cos(au) + bx, y = s * std::sin(au) + 1000 * by, z = ad / 100 * std::cos(ar) + bz / 100;
  VP_REQUIRES(x * x + y * y > 1e-3);
  cart_a b(met(bx), kmt(by), cmt(bz));
  at(make_cartesian_representation(sum(sph_a(rad(au), deg(av), cmt(ad)), b)), x, y, z);
  at(make_cartesian_representation(mean(sph_a(rad(au), deg(av), cmt(ad)), b)), x / 2, y / 2, z / 2);
}
VP_CONTRACT(C19, units_sum_of_equatorial){
  DIR(a); VEC(b);
  double s = ad / 100 * std::cos(ar), x = s * std::cos(au) + bx, y = s * std::sin(au) + 1000 * by, z = ad / 100 * std::sin(ar) + bz / 100;
  VP_REQUIRES(x * x + y * y > 1e-3);
  cart_a b(met(bx), kmt(by), cmt(bz));
  at(make_cartesian_representation(sum(equ_a(rad(au), deg(av), cmt(ad)), b)), x, y, z);
  at(make_cartesian_representation(mean(equ_a(rad(au), deg(av), cmt(ad)), b)), x / 2, y / 2, z / 2);
}
