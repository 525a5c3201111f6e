// C21: sky coordinates and reference frames keep what they are given, component by component, in the caller's units
#include "coord.hpp"
#include <boost/units/systems/si/velocity.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/alt_az.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/supergalactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/geocentric.hpp>
#include <boost/astronomy/coordinate/coord_sys/heliocentric.hpp>
#include <boost/astronomy/coordinate/ref_frame/frame.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
using namespace boost::astronomy::coordinate;
typedef vbu::quantity<vsi::velocity> v_q;
inline v_q vel(double v){ return v_q::from_value(v); }
typedef vbu::quantity<vbu::divide_typeof_helper<km_u, vsi::time>::type> kv_q;
inline kv_q kvel(double v){ return kv_q::from_value(v); }
#define EQ(a, b) VP_SAME((a).value(), b, #a)
// ---- two-component coordinates: C(make, first, second, joint)
#define PAIR(name, TYPE, A, B) \
template <class QA, class QB> static void pair_##name(double a, double b, double n){ \
  const TYPE<double, QA, QB> c(QA::from_value(a), QB::from_value(b)); \
  EQ(c.get_##A(), a); EQ(c.get_##B(), b); \
  auto t = c.get_##A##_##B(); VP_SAME(std::get<0>(t).value(), a, "pair first"); VP_SAME(std::get<1>(t).value(), b, "pair second"); \
  auto m = make_##TYPE(QA::from_value(a), QB::from_value(b)); \
  VP_SAME(m.get_##A().value(), a, "make first"); VP_SAME(m.get_##B().value(), b, "make second"); \
  TYPE<double, QA, QB> d(c), e(c), f; \
  d.set_##A(QA::from_value(n)); VP_SAME(d.get_##A().value(), n, "set first"); VP_SAME(d.get_##B().value(), b, "set first leaves second"); \
  e.set_##B(QB::from_value(n)); VP_SAME(e.get_##A().value(), a, "set second leaves first"); VP_SAME(e.get_##B().value(), n, "set second"); \
  f.set_##A##_##B(QA::from_value(n), QB::from_value(a)); VP_SAME(f.get_##A().value(), n, "set both: first"); VP_SAME(f.get_##B().value(), a, "set both: second"); \
  const double ka = sizeof(QA) && std::is_same<QA, deg_q>::value ? VPI / 180 : 1.0, kb = std::is_same<QB, deg_q>::value ? VPI / 180 : 1.0; \
  VP_SAME(boost::geometry::get<0>(c.get_point()), a * ka, "point first in radians"); VP_SAME(boost::geometry::get<1>(c.get_point()), b * kb, "point second in radians"); \
} \
VP_CONTRACT(C21, name){ double a = vp_coord("a"), b = vp_coord("b"), n = vp_coord("n"); pair_##name<rad_q, rad_q>(a, b, n); pair_##name<deg_q, deg_q>(a, b, n); pair_##name<rad_q, deg_q>(a, b, n); pair_##name<deg_q, rad_q>(a, b, n); }
PAIR(horizon, horizon_coord, altitude, azimuth)
PAIR(equatorial_ha, equatorial_ha_coord, ha, dec)
PAIR(equatorial_ra, equatorial_ra_coord, ra, dec)
PAIR(ecliptic, ecliptic_coord, lat, lon)
PAIR(galactic_pair, galactic_coord, lat, lon)
// ---- frames
template <class QA, class QB, class QD> using rep_t = spherical_representation<double, QA, QB, QD>;
template <class QA, class QB, class QD> using dif_t = spherical_coslat_differential<double, QA, QB, QD>;
#define SIX double a = vp_coord("a"), b = vp_coord("b"), d = vp_coord("d"), pa = vp_coord("pa"), pb = vp_coord("pb"), rv = vp_coord("rv"), n = vp_coord("n")
#define FRAME(name, F, A, B, POS, PA, PB, PM) \
template <class QA, class QB, class QD> static void frame_##name(double a, double b, double d, double pa, double pb, double rv, double n){ \
  typedef F<rep_t<QA, QB, QD>, dif_t<QB, QA, v_q>> fr; \
  QA qa = QA::from_value(a); QB qb = QB::from_value(b); QD qd = QD::from_value(d); QB qpa = QB::from_value(pa); QA qpb = QA::from_value(pb); \
  const fr c(qa, qb, qd, qpa, qpb, vel(rv)); \
  EQ(c.get_##A(), a); EQ(c.get_##B(), b); EQ(c.get_distance(), d); EQ(c.get_##PA(), pa); EQ(c.get_##PB(), pb); EQ(c.get_radial_velocity(), rv); \
  auto t = c.get_##POS(); VP_SAME(std::get<0>(t).value(), a, "position tuple 1"); VP_SAME(std::get<1>(t).value(), b, "position tuple 2"); VP_SAME(std::get<2>(t).value(), d, "position tuple 3"); \
  auto u = c.get_##PM(); VP_SAME(std::get<0>(u).value(), pa, "motion tuple 1"); VP_SAME(std::get<1>(u).value(), pb, "motion tuple 2"); VP_SAME(std::get<2>(u).value(), rv, "motion tuple 3"); \
  auto p = c.get_proper_motion(); VP_SAME(std::get<0>(p).value(), pa, "proper motion 1"); VP_SAME(std::get<1>(p).value(), pb, "proper motion 2"); \
  { typedef base_frame<rep_t<QA, QB, QD>, dif_t<QB, QA, v_q>> bf; bf const& base = c; VP_SAME(base.get_radial_velocity().value(), rv, "radial velocity of the base frame"); } \
  EQ(c.get_data().get_lat(), a); EQ(c.get_data().get_lon(), b); EQ(c.get_data().get_dist(), d); \
  EQ(c.get_differential().get_dlat(), pa); EQ(c.get_differential().get_dlon_coslat(), pb); EQ(c.get_differential().get_ddist(), rv); \
  const fr k(qa, qb, qd); VP_SAME(k.get_##A().value(), a, "position constructor 1"); VP_SAME(k.get_##B().value(), b, "position constructor 2"); VP_SAME(k.get_distance().value(), d, "position constructor 3"); \
  const fr cc(c); VP_SAME(cc.get_##A().value(), a, "copy 1"); VP_SAME(cc.get_##B().value(), b, "copy 2"); VP_SAME(cc.get_distance().value(), d, "copy 3"); VP_SAME(cc.get_##PA().value(), pa, "copy 4"); VP_SAME(cc.get_##PB().value(), pb, "copy 5"); VP_SAME(cc.get_radial_velocity().value(), rv, "copy 6"); \
} \
template <class QA, class QB, class QD> static void set_##name(double a, double b, double d, double pa, double pb, double rv, double n){ \
  typedef F<rep_t<QA, QB, QD>, dif_t<QB, QA, v_q>> fr; \
  QA qa = QA::from_value(a); QB qb = QB::from_value(b); QD qd = QD::from_value(d); QB qpa = QB::from_value(pa); QA qpb = QA::from_value(pb); \
  const fr c(qa, qb, qd, qpa, qpb, vel(rv)); \
  fr s1(c), s2(c), s3(c), s4(c), s5(c), s6(c), s7(c), s8(c), s9(c); \
  s1.set_##A(QA::from_value(n)); s2.set_##B(QB::from_value(n)); s3.set_distance(QD::from_value(n)); s4.set_##PA(QB::from_value(n)); s5.set_##PB(QA::from_value(n)); s6.set_radial_velocity(vel(n)); \
  s7.set_##POS(QA::from_value(n), QB::from_value(a), QD::from_value(b)); s8.set_##PM(QB::from_value(n), QA::from_value(pa), vel(pb)); s9.set_differential(s8.get_differential()); \
  auto chk = [](fr const& f, double x1, double x2, double x3, double x4, double x5, double x6){ \
    VP_SAME(f.get_##A().value(), x1, "setters: component 1"); VP_SAME(f.get_##B().value(), x2, "setters: component 2"); VP_SAME(f.get_distance().value(), x3, "setters: component 3"); \
    VP_SAME(f.get_##PA().value(), x4, "setters: component 4"); VP_SAME(f.get_##PB().value(), x5, "setters: component 5"); VP_SAME(f.get_radial_velocity().value(), x6, "setters: component 6"); }; \
  chk(s1, n, b, d, pa, pb, rv); chk(s2, a, n, d, pa, pb, rv); chk(s3, a, b, n, pa, pb, rv); chk(s4, a, b, d, n, pb, rv); chk(s5, a, b, d, pa, n, rv); chk(s6, a, b, d, pa, pb, n); \
  chk(s7, n, a, b, pa, pb, rv); chk(s8, a, b, d, n, pa, pb); chk(s9, a, b, d, n, pa, pb); \
} \
template <class QA, class QB, class QD> static void from_##name(double a, double b, double d, double pa, double pb, double rv){ \
  typedef F<rep_t<QA, QB, QD>, dif_t<QB, QA, v_q>> fr; \
  /* from a representation and a differential in other units */ \
  const double ka = std::is_same<QA, deg_q>::value ? VPI / 180 : 1.0, kb = std::is_same<QB, deg_q>::value ? VPI / 180 : 1.0, kd = std::is_same<QD, km_q>::value ? 1000.0 : 1.0; \
  rep_t<rad_q, rad_q, m_q> r(rad(a), rad(b), met(d)); dif_t<rad_q, rad_q, v_q> m(rad(pa), rad(pb), vel(rv)); dif_t<deg_q, rad_q, kv_q> m2(deg(pa * (180 / VPI)), rad(pb), kvel(rv / 1000)); \
  rep_t<rad_q, deg_q, cm_q> r2(rad(a), deg(b * (180 / VPI)), cmt(d * 100)); const fr o2(r2), c2(r2, m2); \
  F<rep_t<QA, QB, QD>, dif_t<QB, QA, kv_q>> c3(r, m); VP_SAME(c3.get_radial_velocity().value() * 1000, rv, "from differential: m/s to km/s"); VP_SAME(c3.get_##PA().value() * kb, pa, "from differential to km/s: component 1"); \
  const fr o(r), c(r, m); \
  auto chk = [&](fr const& f){ VP_SAME(f.get_##A().value() * ka, a, "from representation: component 1"); VP_SAME(f.get_##B().value() * kb, b, "from representation: component 2"); VP_SAME(f.get_distance().value() * kd, d, "from representation: component 3"); }; \
  chk(o); chk(c); chk(o2); chk(c2); \
  VP_SAME(c2.get_##PA().value() * kb, pa, "from differential in mixed units: component 1"); VP_SAME(c2.get_##PB().value() * ka, pb, "from differential in mixed units: component 2"); VP_SAME(c2.get_radial_velocity().value(), rv, "from differential in km/s: component 3"); \
  VP_SAME(c.get_##PA().value() * kb, pa, "from differential: component 1"); VP_SAME(c.get_##PB().value() * ka, pb, "from differential: component 2"); VP_SAME(c.get_radial_velocity().value(), rv, "from differential: component 3"); \
} \
VP_CONTRACT(C21, name##_components){ SIX; frame_##name<rad_q, rad_q, m_q>(a, b, d, pa, pb, rv, n); frame_##name<deg_q, rad_q, km_q>(a, b, d, pa, pb, rv, n); frame_##name<rad_q, deg_q, m_q>(a, b, d, pa, pb, rv, n); } \
VP_CONTRACT(C21, name##_setters){ SIX; set_##name<rad_q, rad_q, m_q>(a, b, d, pa, pb, rv, n); set_##name<deg_q, rad_q, km_q>(a, b, d, pa, pb, rv, n); } \
VP_CONTRACT(C21, name##_conversion){ SIX; (void)n; from_##name<deg_q, rad_q, km_q>(a, b, d, pa, pb, rv); from_##name<rad_q, deg_q, m_q>(a, b, d, pa, pb, rv); }
FRAME(alt_az, alt_az, alt, az, alt_az_dist, pm_alt, pm_az_cosalt, pm_alt_az_radial)
FRAME(galactic, galactic, b, l, b_l_dist, pm_b, pm_l_cosb, pm_b_l_radial)
FRAME(supergalactic, supergalactic, sgb, sgl, sgb_sgl_dist, pm_sgb, pm_sgl_cossgb, pm_sgb_sgl_radial)
FRAME(icrs, icrs, dec, ra, dec_ra_dist, pm_dec, pm_ra_cosdec, pm_dec_ra_radial)
FRAME(cirs, cirs, dec, ra, dec_ra_dist, pm_dec, pm_ra_cosdec, pm_dec_ra_radial)
FRAME(geocentric, geocentric, lat, lon, lat_lon_dist, pm_lat, pm_lon_coslat, pm_lat_lon_radial)
FRAME(heliocentric, heliocentric, lat, lon, lat_lon_dist, pm_lat, pm_lon_coslat, pm_lat_lon_radial)
// ---- frame parameters
typedef rep_t<rad_q, deg_q, m_q> rep; typedef dif_t<deg_q, rad_q, v_q> dif;
typedef spherical_equatorial_representation<double, deg_q, deg_q> loc_t;
VP_CONTRACT(C21, alt_az_parameters){
  double la = vp_coord("la"), lo = vp_coord("lo"), h = vp_coord("h"), p = vp_coord("p"), t = vp_coord("t"), rh = vp_real("rh", 0, 1), a = vp_coord("a"), n = vp_coord("n");
  long long us = vp_int("us", 1, 1000000000000000LL);
  boost::posix_time::ptime when(boost::gregorian::date(2000, 1, 1), boost::posix_time::microseconds(us));
  loc_t where(deg(la), deg(lo), one_q(h));
  alt_az<rep, dif> f(rad(a), deg(n), met(h), deg(la), rad(lo), vel(p));
  f.set_frame_parameters(where, vbu::quantity<vsi::pressure>::from_value(p), vbu::quantity<vbu::celsius::temperature>::from_value(t), when, one_q(rh));
  auto chk = [&](alt_az<rep, dif> const& g, double p, double t, double rh){
    VP_SAME(g.get_location().get_lat().value(), la, "location latitude"); VP_SAME(g.get_location().get_lon().value(), lo, "location longitude");
    VP_SAME(g.get_pressure().value(), p, "pressure"); VP_SAME(g.get_temprature().value(), t, "temperature"); VP_SAME(g.get_relative_humidity().value(), rh, "humidity");
    VP_ENSURES(g.get_obs_time() == when, "observation time");
    auto all = g.get_frame_parameters();
    VP_SAME(std::get<0>(all).get_lat().value(), la, "parameters: latitude"); VP_SAME(std::get<1>(all).value(), p, "parameters: pressure"); VP_SAME(std::get<2>(all).value(), t, "parameters: temperature"); VP_ENSURES(std::get<3>(all) == when, "parameters: time"); VP_SAME(std::get<4>(all).value(), rh, "parameters: humidity");
    VP_SAME(g.get_alt().value(), a, "parameters leave the altitude alone"); VP_SAME(g.get_az().value(), n, "parameters leave the azimuth alone");
  };
  chk(f, p, t, rh);
  alt_az<rep, dif> c(f); chk(c, p, t, rh);
  c.set_pressure(vbu::quantity<vsi::pressure>::from_value(n)); chk(c, n, t, rh);
  c.set_temprature(vbu::quantity<vbu::celsius::temperature>::from_value(a)); chk(c, n, a, rh);
  c.set_relative_humidity(one_q(1 - rh)); chk(c, n, a, 1 - rh);
  alt_az<rep, dif> e; e.set_location(where); e.set_obs_time(when);
  VP_SAME(e.get_location().get_lon().value(), lo, "set_location"); VP_ENSURES(e.get_obs_time() == when, "set_obs_time");
}
VP_CONTRACT(C21, time_parameters){
  long long us = vp_int("us", 1, 1000000000000000LL);
  boost::posix_time::ptime when(boost::gregorian::date(2000, 1, 1), boost::posix_time::microseconds(us));
  cirs<rep, dif> c; c.set_obs_time(when); VP_ENSURES(c.get_obs_time() == when, "cirs observation time");
  geocentric<rep, dif> g; g.set_equinox(when); VP_ENSURES(g.get_equinox() == when, "geocentric equinox");
  heliocentric<rep, dif> h; h.set_equinox(when); VP_ENSURES(h.get_equinox() == when, "heliocentric equinox");
}
VP_CONTRACT(C21, sky_point_components){
  SIX; typedef icrs<rep, dif> fr;
  auto chk = [&](sky_point<fr> const& s, bool motion, double x){
    fr f = s.get_point();
    VP_SAME(f.get_dec().value(), x, "sky point: component 1"); VP_SAME(f.get_ra().value(), b, "sky point: component 2"); VP_SAME(f.get_distance().value(), d, "sky point: component 3");
    if (motion){ VP_SAME(f.get_pm_dec().value(), pa, "sky point: component 4"); VP_SAME(f.get_pm_ra_cosdec().value(), pb, "sky point: component 5"); VP_SAME(f.get_radial_velocity().value(), rv, "sky point: component 6"); }
  };
  sky_point<fr> s(rad(a), deg(b), met(d), deg(pa), rad(pb), vel(rv)), k(rad(a), deg(b), met(d)), w(s.get_point()), v;
  sky_point<fr> z(rep(rad(a), deg(b), met(d)), dif(deg(pa), rad(pb), vel(rv)));
  chk(s, true, a); chk(k, false, a); chk(w, true, a); chk(z, true, a);
  fr g(s.get_point()); g.set_dec(rad(n)); v.set_point(g); chk(v, true, n); chk(s, true, a);
  sky_point<galactic<rep, dif>> o;
  VP_ENSURES(s.is_equivalent_system(v), "same system"); VP_ENSURES(!s.is_equivalent_system(o), "different system");
}
