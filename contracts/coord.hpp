// shared vocabulary of the coordinate contracts
#ifndef VP_COORD_HPP
#define VP_COORD_HPP
#include "vp.hpp"
#include <cmath>
#include <tuple>
#include <boost/units/quantity.hpp>
#include <boost/units/make_scaled_unit.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/base_units/metric/hour.hpp>
#include <boost/units/base_units/astronomical/light_year.hpp>
#include <boost/geometry/core/cs.hpp>
namespace vbu = boost::units;
namespace vsi = boost::units::si;
typedef vbu::quantity<vsi::plane_angle> rad_q;
typedef vbu::quantity<vbu::degree::plane_angle> deg_q;
typedef vbu::quantity<vsi::length> m_q;
typedef vbu::make_scaled_unit<vsi::length, vbu::scale<10, vbu::static_rational<3>>>::type km_u;
typedef vbu::quantity<km_u> km_q;
typedef vbu::make_scaled_unit<vsi::length, vbu::scale<10, vbu::static_rational<-2>>>::type cm_u;
typedef vbu::quantity<cm_u> cm_q;
typedef vbu::quantity<vsi::dimensionless> one_q;
static const double VPI = 3.14159265358979323846;
inline rad_q rad(double v){ return rad_q::from_value(v); }
inline deg_q deg(double v){ return deg_q::from_value(v); }
inline m_q met(double v){ return m_q::from_value(v); }
inline km_q kmt(double v){ return km_q::from_value(v); }
inline cm_q cmt(double v){ return cm_q::from_value(v); }
// specification: the value of a quantity in radians or metres
inline double si(rad_q q){ return q.value(); }
inline double si(deg_q q){ return q.value() * (VPI / 180); }
inline double si(m_q q){ return q.value(); }
inline double si(km_q q){ return q.value() * 1000; }
inline double si(cm_q q){ return q.value() / 100; }
// every point of space is a direction and a distance; the singular directions (poles, origin) are stated separately
inline double vp_len(const char* n){ return vp_real(n, 1e-3, 1e3); }
inline double vp_coord(const char* n){ return vp_real(n, -1e3, 1e3); }
#endif
