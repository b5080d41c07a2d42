// one kernel of plain numbers and one of physical quantities
#pragma once
#include <queue>
#include "geo.hpp"
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <boost/units/physical_dimensions.hpp>
#include <boost/units/dimensionless_quantity.hpp>
#include <boost/units/pow.hpp>
#include <boost/units/limits.hpp>
#include <boost/units/systems/si.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>
struct UK {
    using D = boost::units::quantity<boost::units::si::dimensionless, double>; using L = boost::units::quantity<boost::units::si::length, double>; using T = boost::units::quantity<boost::units::si::time, double>; using A = boost::units::quantity<boost::units::si::plane_angle, double>; using S = boost::units::quantity<boost::units::si::velocity, double>;
    using Ar = decltype(L() * L());
    using P = gx::point<L, 2>; using V = gx::vector<L, 2>; using U = gx::vector<D, 2>; using W = gx::vector<S, 2>; using P3 = gx::point<L, 3>; using V3 = gx::vector<L, 3>;
    using Cmp = gx::mapped_tolerance_comparison_policy<gx::absolute_tolerance_comparison_policy<double>, boost::fusion::pair<A, gx::absolute_tolerance_comparison_policy<double>>>;
    static Cmp cmp() { return Cmp{gx::absolute_tolerance_comparison_policy<double>(1e-10), boost::fusion::make_pair<A>(gx::absolute_tolerance_comparison_policy<double>(1e-10))}; }
    static L l(double v) { return L::from_value(v); } static T t(double v) { return T::from_value(v); } static D d(double v) { return D(v); } static S s(double v) { return S::from_value(v); } static A a(double v) { return A::from_value(v); }
};
struct DK {
    using D = double; using L = double; using T = double; using A = double; using S = double; using Ar = double;
    using P = gx::point<double, 2>; using V = gx::vector<double, 2>; using U = V; using W = V; using P3 = gx::point<double, 3>; using V3 = gx::vector<double, 3>;
    using Cmp = gx::absolute_tolerance_comparison_policy<double>; static Cmp cmp() { return Cmp(1e-10); }
    static double l(double v) { return v; } static double t(double v) { return v; } static double d(double v) { return v; } static double s(double v) { return v; } static double a(double v) { return v; }
};
GEOMETRIX_DEFINE_POINT_TRAITS(UK::P, (UK::L), 2, UK::D, UK::L, neutral_reference_frame_2d, index_operator_vector_access_policy<UK::P>);
GEOMETRIX_DEFINE_POINT_TRAITS(UK::P3, (UK::L), 3, UK::D, UK::L, neutral_reference_frame_3d, index_operator_vector_access_policy<UK::P3>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(UK::V, (UK::L), 2, UK::D, UK::L, neutral_reference_frame_2d, index_operator_vector_access_policy<UK::V>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(UK::V3, (UK::L), 3, UK::D, UK::L, neutral_reference_frame_3d, index_operator_vector_access_policy<UK::V3>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(UK::U, (UK::D), 2, UK::D, UK::D, neutral_reference_frame_2d, index_operator_vector_access_policy<UK::U>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(UK::W, (UK::S), 2, UK::D, UK::S, neutral_reference_frame_2d, index_operator_vector_access_policy<UK::W>);
using USph = gx::sphere<2, UK::P>; using DSph = gx::sphere<2, DK::P>;
GEOMETRIX_DEFINE_SPHERE_TRAITS(2, UK::P, USph);
GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(USph);
inline double val(double v) { return v; } inline double val(bool v) { return v; } inline double val(int v) { return v; }
template <class U, class Y> inline double val(const boost::units::quantity<U, Y>& q) { return q.value(); }
