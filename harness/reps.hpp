// user supplied point and vector types, each held in another way
#pragma once
#include "geo.hpp"
#include <boost/tuple/tuple.hpp>
#include <boost/fusion/include/adapt_struct.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/utility/member_function_fusion_adaptor.hpp>
#include <geometrix/tensor/fusion_vector_access_policy.hpp>
#include <geometrix/tensor/tuple_vector_access_policy.hpp>
#include <geometrix/tensor/index_operator_vector_access_policy.hpp>
#include <geometrix/tensor/fusion_vector.hpp>
// named member functions
#define MEM2(N) struct N { N(double x = 0, double y = 0) : m_y(y), m_x(x) {} \
    const double& get_x() const { return m_x; } double& get_x() { return m_x; } const double& get_y() const { return m_y; } double& get_y() { return m_y; } void set_x(const double& v) { m_x = v; } void set_y(const double& v) { m_y = v; } \
    double m_y, pad = 99, m_x; };
#define MEM3(N) struct N { N(double x = 0, double y = 0, double z = 0) : m_z(z), m_x(x), m_y(y) {} \
    const double& get_x() const { return m_x; } double& get_x() { return m_x; } const double& get_y() const { return m_y; } double& get_y() { return m_y; } const double& get_z() const { return m_z; } double& get_z() { return m_z; } \
    void set_x(const double& v) { m_x = v; } void set_y(const double& v) { m_y = v; } void set_z(const double& v) { m_z = v; } double m_z, m_x, m_y; };
MEM2(MemP2) MEM2(MemV2) MEM3(MemP3) MEM3(MemV3)
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(MemP2, (double&, const double&, get_x, set_x)(double&, const double&, get_y, set_y));
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(MemV2, (double&, const double&, get_x, set_x)(double&, const double&, get_y, set_y));
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(MemP3, (double&, const double&, get_x, set_x)(double&, const double&, get_y, set_y)(double&, const double&, get_z, set_z));
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(MemV3, (double&, const double&, get_x, set_x)(double&, const double&, get_y, set_y)(double&, const double&, get_z, set_z));
// tuples
struct TupP2 : boost::tuple<double, double> { TupP2(double x = 0, double y = 0) : boost::tuple<double, double>(x, y) {} };
struct TupV2 : boost::tuple<double, double> { TupV2(double x = 0, double y = 0) : boost::tuple<double, double>(x, y) {} };
struct TupP3 : boost::tuple<double, double, double> { TupP3(double x = 0, double y = 0, double z = 0) : boost::tuple<double, double, double>(x, y, z) {} };
struct TupV3 : boost::tuple<double, double, double> { TupV3(double x = 0, double y = 0, double z = 0) : boost::tuple<double, double, double>(x, y, z) {} };
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(TupP2, double, get, 2);
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(TupV2, double, get, 2);
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(TupP3, double, get, 3);
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(TupV3, double, get, 3);
// index operators over a vector
#define IDX(N, D) struct N { N(double x = 0, double y = 0, double z = 0) : p(D) { p[0] = x; p[1] = y; if (D > 2) p[D - 1] = z; } const double& operator[](std::size_t i) const { return p[i]; } double& operator[](std::size_t i) { return p[i]; } std::vector<double> p; };
IDX(IdxP2, 2) IDX(IdxV2, 2) IDX(IdxP3, 3) IDX(IdxV3, 3) IDX(ArrP2, 2) IDX(ArrV2, 2) IDX(ArrP3, 3) IDX(ArrV3, 3)
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(IdxP2, double, 2);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(IdxV2, double, 2);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(IdxP3, double, 3);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(IdxV3, double, 3);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(ArrP2, double, 2);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(ArrV2, double, 2);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(ArrP3, double, 3);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(ArrV3, double, 3);
// plain structures, also with members of different types
#define POD2(N, T1, T2) struct N { T2 y; T1 x; N(double a = 0, double b = 0) : y(T2(b)), x(T1(a)) {} };
#define POD3(N, T1, T2, T3) struct N { T2 y; T1 x; T3 z; N(double a = 0, double b = 0, double c = 0) : y(T2(b)), x(T1(a)), z(T3(c)) {} };
POD2(PodP2, double, double) POD2(PodV2, double, double) POD2(MixP2, float, double) POD2(MixV2, float, double) POD3(PodP3, double, double, double) POD3(PodV3, double, double, double) POD3(MixP3, float, double, float) POD3(MixV3, double, float, double)
BOOST_FUSION_ADAPT_STRUCT(PodP2, (double, x)(double, y))
BOOST_FUSION_ADAPT_STRUCT(PodV2, (double, x)(double, y))
BOOST_FUSION_ADAPT_STRUCT(PodP3, (double, x)(double, y)(double, z))
BOOST_FUSION_ADAPT_STRUCT(PodV3, (double, x)(double, y)(double, z))
BOOST_FUSION_ADAPT_STRUCT(MixP2, (float, x)(double, y))
BOOST_FUSION_ADAPT_STRUCT(MixV2, (float, x)(double, y))
BOOST_FUSION_ADAPT_STRUCT(MixP3, (float, x)(double, y)(float, z))
BOOST_FUSION_ADAPT_STRUCT(MixV3, (double, x)(float, y)(double, z))
namespace geometrix {
#define CP2(N) template <> struct construction_policy<N> { static N construct(double x, double y) { return N(x, y); } template <typename S> static N construct(const S& s) { return N(geometrix::get<0>(s), geometrix::get<1>(s)); } };
#define CP3(N) template <> struct construction_policy<N> { static N construct(double x, double y, double z) { return N(x, y, z); } template <typename S> static N construct(const S& s) { return N(geometrix::get<0>(s), geometrix::get<1>(s), geometrix::get<2>(s)); } };
CP2(MemP2) CP2(MemV2) CP3(MemP3) CP3(MemV3) CP2(TupP2) CP2(TupV2) CP3(TupP3) CP3(TupV3) CP2(IdxP2) CP2(IdxV2) CP3(IdxP3) CP3(IdxV3) CP2(ArrP2) CP2(ArrV2) CP3(ArrP3) CP3(ArrV3) CP2(PodP2) CP2(PodV2) CP3(PodP3) CP3(PodV3) CP2(MixP2) CP2(MixV2) CP3(MixP3) CP3(MixV3)
}
GEOMETRIX_DEFINE_POINT_TRAITS(MemP2, (double), 2, double, double, neutral_reference_frame_2d, fusion_vector_member_function_access_policy<MemP2>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(MemV2, (double), 2, double, double, neutral_reference_frame_2d, fusion_vector_member_function_access_policy<MemV2>);
GEOMETRIX_DEFINE_POINT_TRAITS(MemP3, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_member_function_access_policy<MemP3>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(MemV3, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_member_function_access_policy<MemV3>);
GEOMETRIX_DEFINE_POINT_TRAITS(TupP2, (double), 2, double, double, neutral_reference_frame_2d, tuple_vector_access_policy<TupP2>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(TupV2, (double), 2, double, double, neutral_reference_frame_2d, tuple_vector_access_policy<TupV2>);
GEOMETRIX_DEFINE_POINT_TRAITS(TupP3, (double), 3, double, double, neutral_reference_frame_3d, tuple_vector_access_policy<TupP3>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(TupV3, (double), 3, double, double, neutral_reference_frame_3d, tuple_vector_access_policy<TupV3>);
GEOMETRIX_DEFINE_POINT_TRAITS(IdxP2, (double), 2, double, double, neutral_reference_frame_2d, fusion_vector_access_policy<IdxP2>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(IdxV2, (double), 2, double, double, neutral_reference_frame_2d, fusion_vector_access_policy<IdxV2>);
GEOMETRIX_DEFINE_POINT_TRAITS(IdxP3, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_access_policy<IdxP3>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(IdxV3, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_access_policy<IdxV3>);
GEOMETRIX_DEFINE_POINT_TRAITS(ArrP2, (double), 2, double, double, neutral_reference_frame_2d, index_operator_vector_access_policy<ArrP2>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(ArrV2, (double), 2, double, double, neutral_reference_frame_2d, index_operator_vector_access_policy<ArrV2>);
GEOMETRIX_DEFINE_POINT_TRAITS(ArrP3, (double), 3, double, double, neutral_reference_frame_3d, index_operator_vector_access_policy<ArrP3>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(ArrV3, (double), 3, double, double, neutral_reference_frame_3d, index_operator_vector_access_policy<ArrV3>);
GEOMETRIX_DEFINE_FUSION_POINT_TRAITS(PodP2, (double), 2, double, double, neutral_reference_frame_2d, fusion_vector_access_policy<PodP2>);
GEOMETRIX_DEFINE_FUSION_VECTOR_TRAITS(PodV2, (double), 2, double, neutral_reference_frame_2d, fusion_vector_access_policy<PodV2>);
GEOMETRIX_DEFINE_FUSION_POINT_TRAITS(PodP3, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_access_policy<PodP3>);
GEOMETRIX_DEFINE_FUSION_VECTOR_TRAITS(PodV3, (double), 3, double, neutral_reference_frame_3d, fusion_vector_access_policy<PodV3>);
GEOMETRIX_DEFINE_FUSION_POINT_TRAITS(MixP2, (float)(double), 2, double, double, neutral_reference_frame_2d, fusion_vector_access_policy<MixP2>);
GEOMETRIX_DEFINE_FUSION_VECTOR_TRAITS(MixV2, (float)(double), 2, double, neutral_reference_frame_2d, fusion_vector_access_policy<MixV2>);
GEOMETRIX_DEFINE_FUSION_POINT_TRAITS(MixP3, (float)(double)(float), 3, double, double, neutral_reference_frame_3d, fusion_vector_access_policy<MixP3>);
GEOMETRIX_DEFINE_FUSION_VECTOR_TRAITS(MixV3, (double)(float)(double), 3, double, neutral_reference_frame_3d, fusion_vector_access_policy<MixV3>);
namespace geometrix {
template <class T, int D> struct as_ap;
#define AP(N, D) template <> struct assignment_policy<N> { template <typename S> static void assign(N& p, const S& s) { p = construction_policy<N>::construct(s); } };
AP(MemP2, 2) AP(MemV2, 2) AP(MemP3, 3) AP(MemV3, 3) AP(TupP2, 2) AP(TupV2, 2) AP(TupP3, 3) AP(TupV3, 3) AP(IdxP2, 2) AP(IdxV2, 2) AP(IdxP3, 3) AP(IdxV3, 3) AP(ArrP2, 2) AP(ArrV2, 2) AP(ArrP3, 3) AP(ArrV3, 3) AP(PodP2, 2) AP(PodV2, 2) AP(PodP3, 3) AP(PodV3, 3) AP(MixP2, 2) AP(MixV2, 2) AP(MixP3, 3) AP(MixV3, 3)
}
