// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct R { int r; void f(); void f(int); static int s; struct RT { int t; }; enum RE { re }; R(int); };
struct GENPYBIND(__sel_m1) M1 : R { using R::R; int m1; void f(double); };
struct GENPYBIND(__sel_m2) M2 : virtual M1 { int m2; };
struct M3 : virtual M1 { int m3; void r(); };
struct GENPYBIND(__sel_d) D : M2, M3 { int d; };
struct GENPYBIND(__sel_p) P : private R, protected M1 {};
struct Pub { int pub; protected: int prot; private: int priv; public: ~Pub(); Pub &operator=(Pub const &); bool operator==(Pub const &) const; operator int() const; };
struct GENPYBIND(__sel_q) Q : Pub { int pub; using Pub::prot; };
struct GENPYBIND(hidden) H : Pub { int h; };
struct GENPYBIND(__sel_hu) HU : H {};
struct Incomplete; template <typename T> struct Tp : T { T *t; };
struct GENPYBIND(__sel_tu) TU : Tp<Pub> {};
typedef Pub PubAlias; struct GENPYBIND(__sel_al) AU : PubAlias {};
template <typename T> struct GENPYBIND(inline_base) Crtp : Pub { T *self; };
struct GENPYBIND(__sel_cr) CR : Crtp<CR> {};
template <typename T> struct Tq : Pub { T v; };
extern template struct GENPYBIND(__sel_tq) Tq<int>;
namespace p1 { struct Same { int a; void sm(); }; } namespace p2 { struct Same { int b; void sm(int); }; }
struct GENPYBIND(__sel_sm) SM : p1::Same, p2::Same { int c; };
struct GENPYBIND(__sel_sn) SN : SM { };
}
)zoo";
const Zoo Z0{{
  "|class<::n::R>(\"R\")",
  ".R|class<::n::R::RT>(\"RT\")",
  ".R|enum<::n::R::RE>(\"RE\")",
  "|class<::n::M1,::n::R>(\"M1\")",
  "|class<::n::M2,::n::M1>(\"M2\")",
  "|class<::n::M3,::n::M1>(\"M3\")",
  "|class<::n::D,::n::M2,::n::M3>(\"D\")",
  "|class<::n::P>(\"P\")",
  "|class<::n::Pub>(\"Pub\")",
  "|class<::n::Q,::n::Pub>(\"Q\")",
  "|class<::n::HU>(\"HU\")",
  "|class<::n::Tp<::n::Pub>,::n::Pub>(\"Tp_n_Pub_\")",
  "|class<::n::TU,::n::Tp<::n::Pub>>(\"TU\")",
  "|class<::n::AU,::n::Pub>(\"AU\")",
  "|class<::n::Crtp<::n::CR>>(\"Crtp_n_CR_\")",
  "|class<::n::CR,::n::Crtp<::n::CR>>(\"CR\")",
  "|class<::n::Tq<int>,::n::Pub>(\"Tq_int_\")",
  "|class<::n::p1::Same>(\"Same\")",
  "|class<::n::p2::Same>(\"Same\")",
  "|class<::n::SM,::n::p1::Same,::n::p2::Same>(\"SM\")",
  "|class<::n::SN,::n::SM>(\"SN\")",
  ".R|context.def(pybind11::init<const::n::R&>(),\"\",pybind11::arg(\"\"))",
  ".R|context.def_readwrite(\"r\",&::n::R::r)",
  ".R|context.def(\"f\",pybind11::overload_cast<>(&::n::R::f),\"\")",
  ".R|context.def(\"f\",pybind11::overload_cast<int>(&::n::R::f),\"\",pybind11::arg(\"\"))",
  ".R|context.def_readwrite_static(\"s\",&::n::R::s)",
  ".R|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".R.RT|context.def(pybind11::init<>(),\"\")",
  ".R.RT|context.def(pybind11::init<const::n::R::RT&>(),\"\",pybind11::arg(\"\"))",
  ".R.RT|context.def_readwrite(\"t\",&::n::R::RT::t)",
  ".R.RE|context.value(\"re\",::n::R::RE::re)",
  ".R.RE|context.export_values()",
  ".M1|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".M1|context.def(pybind11::init<const::n::M1&>(),\"\",pybind11::arg(\"\"))",
  ".M1|context.def_readwrite(\"m1\",&::n::M1::m1)",
  ".M1|context.def(\"f\",pybind11::overload_cast<double>(&::n::M1::f),\"\",pybind11::arg(\"\"))",
  ".M2|context.def(pybind11::init<const::n::M2&>(),\"\",pybind11::arg(\"\"))",
  ".M2|context.def_readwrite(\"m2\",&::n::M2::m2)",
  ".M3|context.def(pybind11::init<const::n::M3&>(),\"\",pybind11::arg(\"\"))",
  ".M3|context.def_readwrite(\"m3\",&::n::M3::m3)",
  ".M3|context.def(\"r\",pybind11::overload_cast<>(&::n::M3::r),\"\")",
  ".D|context.def(pybind11::init<const::n::D&>(),\"\",pybind11::arg(\"\"))",
  ".D|context.def_readwrite(\"d\",&::n::D::d)",
  ".P|context.def(pybind11::init<const::n::P&>(),\"\",pybind11::arg(\"\"))",
  ".Pub|context.def(pybind11::init<const::n::Pub&>(),\"\",pybind11::arg(\"\"))",
  ".Pub|context.def(pybind11::init<>(),\"\")",
  ".Pub|context.def_readwrite(\"pub\",&::n::Pub::pub)",
  ".Pub|context.def(\"__eq__\",[](const::n::Pub&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())",
  ".Pub|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")",
  ".Q|context.def_readwrite(\"prot\",&::n::Pub::prot)",
  ".Q|context.def(pybind11::init<const::n::Q&>(),\"\",pybind11::arg(\"\"))",
  ".Q|context.def(pybind11::init<>(),\"\")",
  ".Q|context.def_readwrite(\"pub\",&::n::Q::pub)",
  ".HU|context.def(pybind11::init<>(),\"\")",
  ".HU|context.def(pybind11::init<const::n::HU&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_n_Pub_|context.def(pybind11::init<const::n::Tp<::n::Pub>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_n_Pub_|context.def(pybind11::init<>(),\"\")",
  ".Tp_n_Pub_|context.def_readwrite(\"t\",&::n::Tp<n::Pub>::t)",
  ".TU|context.def(pybind11::init<>(),\"\")",
  ".TU|context.def(pybind11::init<const::n::TU&>(),\"\",pybind11::arg(\"\"))",
  ".AU|context.def(pybind11::init<const::n::AU&>(),\"\",pybind11::arg(\"\"))",
  ".AU|context.def(pybind11::init<>(),\"\")",
  ".Crtp_n_CR_|context.def_readwrite(\"pub\",&::n::Pub::pub)",
  ".Crtp_n_CR_|context.def(\"__eq__\",[](const::n::Crtp<::n::CR>&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())",
  ".Crtp_n_CR_|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")",
  ".Crtp_n_CR_|context.def(pybind11::init<const::n::Crtp<::n::CR>&>(),\"\",pybind11::arg(\"\"))",
  ".Crtp_n_CR_|context.def(pybind11::init<>(),\"\")",
  ".Crtp_n_CR_|context.def_readwrite(\"self\",&::n::Crtp<n::CR>::self)",
  ".CR|context.def(pybind11::init<>(),\"\")",
  ".CR|context.def(pybind11::init<const::n::CR&>(),\"\",pybind11::arg(\"\"))",
  ".Tq_int_|context.def_readwrite(\"v\",&::n::Tq<int>::v)",
  ".Tq_int_|context.def(pybind11::init<const::n::Tq<int>&>(),\"\",pybind11::arg(\"\"))",
  ".Tq_int_|context.def(pybind11::init<>(),\"\")",
  ".Same|context.def(pybind11::init<>(),\"\")",
  ".Same|context.def(pybind11::init<const::n::p1::Same&>(),\"\",pybind11::arg(\"\"))",
  ".Same|context.def_readwrite(\"a\",&::n::p1::Same::a)",
  ".Same|context.def(\"sm\",pybind11::overload_cast<>(&::n::p1::Same::sm),\"\")",
  ".Same|context.def(pybind11::init<>(),\"\")",
  ".Same|context.def(pybind11::init<const::n::p2::Same&>(),\"\",pybind11::arg(\"\"))",
  ".Same|context.def_readwrite(\"b\",&::n::p2::Same::b)",
  ".Same|context.def(\"sm\",pybind11::overload_cast<int>(&::n::p2::Same::sm),\"\",pybind11::arg(\"\"))",
  ".SM|context.def(pybind11::init<>(),\"\")",
  ".SM|context.def(pybind11::init<const::n::SM&>(),\"\",pybind11::arg(\"\"))",
  ".SM|context.def_readwrite(\"c\",&::n::SM::c)",
  ".SN|context.def(pybind11::init<>(),\"\")",
  ".SN|context.def(pybind11::init<const::n::SN&>(),\"\",pybind11::arg(\"\"))"
}, {
  {"m1", 0, {nullptr, "hide_base", "inline_base", "hide_base(R)", "inline_base(R)", "hide_base(\"R\")", "hide_base(\"n::R\")", "hide_base(\"::n::R\")", "inline_base(\"::n::R\")", "hide_base(X)", "hide_base(R, R)", "inline_base(R), hide_base(R)"}, {
    {false, {}, {}},
    {false, {3}, {{3, "|class<::n::M1>(\"M1\")"}}},
    {false, {3}, {{3, "|class<::n::M1>(\"M1\")"}, {32, ".M1|context.def_readwrite(\"r\",&::n::R::r)"}, {32, ".M1|context.def_readwrite_static(\"s\",&::n::R::s)"}}},
    {false, {3}, {{3, "|class<::n::M1>(\"M1\")"}}},
    {false, {3}, {{3, "|class<::n::M1>(\"M1\")"}, {32, ".M1|context.def_readwrite(\"r\",&::n::R::r)"}, {32, ".M1|context.def_readwrite_static(\"s\",&::n::R::s)"}}},
    {false, {3}, {{3, "|class<::n::M1>(\"M1\")"}}},
    {false, {3}, {{3, "|class<::n::M1>(\"M1\")"}}},
    {false, {3}, {{3, "|class<::n::M1>(\"M1\")"}}},
    {false, {3}, {{3, "|class<::n::M1>(\"M1\")"}, {32, ".M1|context.def_readwrite(\"r\",&::n::R::r)"}, {32, ".M1|context.def_readwrite_static(\"s\",&::n::R::s)"}}},
    {false, {}, {}},
    {false, {3}, {{3, "|class<::n::M1>(\"M1\")"}}},
    {false, {3}, {{3, "|class<::n::M1>(\"M1\")"}}}}},
  {"m2", 0, {nullptr, "hidden", "hide_base", "inline_base(R)"}, {
    {false, {}, {}},
    {false, {4, 6, 36, 37}, {{6, "|class<::n::D,::n::M3>(\"D\")"}}},
    {false, {4}, {{4, "|class<::n::M2>(\"M2\")"}}},
    {false, {}, {{36, ".M2|context.def_readwrite(\"r\",&::n::R::r)"}, {36, ".M2|context.def_readwrite_static(\"s\",&::n::R::s)"}}}}},
  {"d", 0, {nullptr, "hide_base", "hide_base(M2)", "hide_base(M3)", "hide_base(M2, M3)", "inline_base", "inline_base(M2)", "inline_base(M3)", "inline_base(M2, M3)", "inline_base(M1)", "inline_base(M2, M3, M1)", "inline_base(M2), hide_base(M3)", "inline_base(M2, M1), hide_base(R)", "inline_base(M2, M1, R)", "inline_base(M2), inline_base(M1), inline_base(R), inline_base(M3)", "inline_base(M2), hide_base(M2)", "hide_base(R)"}, {
    {false, {}, {}},
    {false, {6}, {{6, "|class<::n::D>(\"D\")"}}},
    {false, {6}, {{6, "|class<::n::D,::n::M3>(\"D\")"}}},
    {false, {6}, {{6, "|class<::n::D,::n::M2>(\"D\")"}}},
    {false, {6}, {{6, "|class<::n::D>(\"D\")"}}},
    {false, {6}, {{6, "|class<::n::D>(\"D\")"}, {41, ".D|context.def_readwrite(\"r\",&::n::R::r)"}, {41, ".D|context.def_readwrite_static(\"s\",&::n::R::s)"}, {41, ".D|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m1\",&::n::M1::m1)"}, {41, ".D|context.def(\"f\",pybind11::overload_cast<double>(&::n::M1::f),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m2\",&::n::M2::m2)"}, {41, ".D|context.def_readwrite(\"m3\",&::n::M3::m3)"}, {41, ".D|context.def(\"r\",pybind11::overload_cast<>(&::n::M3::r),\"\")"}}},
    {false, {6}, {{6, "|class<::n::D,::n::M1,::n::M3>(\"D\")"}, {41, ".D|context.def_readwrite(\"m2\",&::n::M2::m2)"}}},
    {false, {6}, {{6, "|class<::n::D,::n::M2,::n::M1>(\"D\")"}, {41, ".D|context.def_readwrite(\"m3\",&::n::M3::m3)"}, {41, ".D|context.def(\"r\",pybind11::overload_cast<>(&::n::M3::r),\"\")"}}},
    {false, {6}, {{6, "|class<::n::D,::n::M1>(\"D\")"}, {41, ".D|context.def_readwrite(\"m2\",&::n::M2::m2)"}, {41, ".D|context.def_readwrite(\"m3\",&::n::M3::m3)"}, {41, ".D|context.def(\"r\",pybind11::overload_cast<>(&::n::M3::r),\"\")"}}},
    {false, {}, {{41, ".D|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m1\",&::n::M1::m1)"}, {41, ".D|context.def(\"f\",pybind11::overload_cast<double>(&::n::M1::f),\"\",pybind11::arg(\"\"))"}}},
    {false, {6}, {{6, "|class<::n::D,::n::R>(\"D\")"}, {41, ".D|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m1\",&::n::M1::m1)"}, {41, ".D|context.def(\"f\",pybind11::overload_cast<double>(&::n::M1::f),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m2\",&::n::M2::m2)"}, {41, ".D|context.def_readwrite(\"m3\",&::n::M3::m3)"}, {41, ".D|context.def(\"r\",pybind11::overload_cast<>(&::n::M3::r),\"\")"}}},
    {false, {6}, {{6, "|class<::n::D,::n::M1>(\"D\")"}, {41, ".D|context.def_readwrite(\"m2\",&::n::M2::m2)"}}},
    {false, {6}, {{6, "|class<::n::D,::n::R,::n::M3>(\"D\")"}, {41, ".D|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m1\",&::n::M1::m1)"}, {41, ".D|context.def(\"f\",pybind11::overload_cast<double>(&::n::M1::f),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m2\",&::n::M2::m2)"}}},
    {false, {6}, {{6, "|class<::n::D,::n::M3>(\"D\")"}, {41, ".D|context.def_readwrite(\"r\",&::n::R::r)"}, {41, ".D|context.def_readwrite_static(\"s\",&::n::R::s)"}, {41, ".D|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m1\",&::n::M1::m1)"}, {41, ".D|context.def(\"f\",pybind11::overload_cast<double>(&::n::M1::f),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m2\",&::n::M2::m2)"}}},
    {false, {6}, {{6, "|class<::n::D>(\"D\")"}, {41, ".D|context.def_readwrite(\"r\",&::n::R::r)"}, {41, ".D|context.def_readwrite_static(\"s\",&::n::R::s)"}, {41, ".D|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m1\",&::n::M1::m1)"}, {41, ".D|context.def(\"f\",pybind11::overload_cast<double>(&::n::M1::f),\"\",pybind11::arg(\"\"))"}, {41, ".D|context.def_readwrite(\"m2\",&::n::M2::m2)"}, {41, ".D|context.def_readwrite(\"m3\",&::n::M3::m3)"}, {41, ".D|context.def(\"r\",pybind11::overload_cast<>(&::n::M3::r),\"\")"}}},
    {false, {6}, {{6, "|class<::n::D,::n::M3>(\"D\")"}}},
    {false, {}, {}}}},
  {"p", 0, {nullptr, "inline_base", "inline_base(R)", "hide_base", "inline_base(Pub)"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"q", 0, {nullptr, "inline_base", "inline_base(Pub)", "hide_base(Pub)"}, {
    {false, {}, {}},
    {false, {9}, {{9, "|class<::n::Q>(\"Q\")"}, {50, ".Q|context.def(\"__eq__\",[](const::n::Q&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {50, ".Q|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}}},
    {false, {9}, {{9, "|class<::n::Q>(\"Q\")"}, {50, ".Q|context.def(\"__eq__\",[](const::n::Q&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {50, ".Q|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}}},
    {false, {9}, {{9, "|class<::n::Q>(\"Q\")"}}}}},
  {"hu", 0, {nullptr, "inline_base", "inline_base(H)", "inline_base(H, Pub)", "hide_base(H)"}, {
    {false, {}, {}},
    {false, {}, {{53, ".HU|context.def_readwrite(\"pub\",&::n::Pub::pub)"}, {53, ".HU|context.def(\"__eq__\",[](const::n::HU&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {53, ".HU|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}, {53, ".HU|context.def_readwrite(\"h\",&::n::H::h)"}}},
    {false, {10}, {{10, "|class<::n::HU,::n::Pub>(\"HU\")"}, {53, ".HU|context.def_readwrite(\"h\",&::n::H::h)"}}},
    {false, {}, {{53, ".HU|context.def_readwrite(\"pub\",&::n::Pub::pub)"}, {53, ".HU|context.def(\"__eq__\",[](const::n::HU&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {53, ".HU|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}, {53, ".HU|context.def_readwrite(\"h\",&::n::H::h)"}}},
    {false, {}, {}}}},
  {"tu", 0, {nullptr, "inline_base", "inline_base(\"Tp<Pub>\")", "inline_base(Tp)", "hide_base(\"Tp<Pub>\")", "inline_base(\"n::Tp<n::Pub>\")", "inline_base(\"Tp<n::Pub>\", Pub)"}, {
    {false, {}, {}},
    {false, {12}, {{12, "|class<::n::TU>(\"TU\")"}, {58, ".TU|context.def_readwrite(\"pub\",&::n::Pub::pub)"}, {58, ".TU|context.def(\"__eq__\",[](const::n::TU&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {58, ".TU|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}, {58, ".TU|context.def_readwrite(\"t\",&::n::Tp<n::Pub>::t)"}}},
    {false, {}, {}},
    {false, {12}, {{12, "|class<::n::TU,::n::Pub>(\"TU\")"}, {58, ".TU|context.def_readwrite(\"t\",&::n::Tp<n::Pub>::t)"}}},
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {{58, ".TU|context.def_readwrite(\"pub\",&::n::Pub::pub)"}, {58, ".TU|context.def(\"__eq__\",[](const::n::TU&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {58, ".TU|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}}}}},
  {"al", 0, {nullptr, "inline_base(PubAlias)", "hide_base(PubAlias)", "inline_base(Pub)"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}},
    {false, {13}, {{13, "|class<::n::AU>(\"AU\")"}, {60, ".AU|context.def_readwrite(\"pub\",&::n::Pub::pub)"}, {60, ".AU|context.def(\"__eq__\",[](const::n::AU&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {60, ".AU|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}}}}},
  {"cr", 0, {nullptr, "inline_base", "hide_base", "inline_base(Pub)"}, {
    {false, {}, {}},
    {false, {15}, {{15, "|class<::n::CR>(\"CR\")"}, {68, ".CR|context.def_readwrite(\"pub\",&::n::Pub::pub)"}, {68, ".CR|context.def(\"__eq__\",[](const::n::CR&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {68, ".CR|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}, {68, ".CR|context.def_readwrite(\"self\",&::n::Crtp<n::CR>::self)"}}},
    {false, {15}, {{15, "|class<::n::CR>(\"CR\")"}}},
    {false, {}, {{68, ".CR|context.def_readwrite(\"pub\",&::n::Pub::pub)"}, {68, ".CR|context.def(\"__eq__\",[](const::n::CR&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {68, ".CR|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}}}}},
  {"tq", 0, {"visible", "inline_base", "hide_base", "inline_base(Pub)", "hide_base(Pub)"}, {
    {false, {}, {}},
    {false, {16}, {{16, "|class<::n::Tq<int>>(\"Tq_int_\")"}, {70, ".Tq_int_|context.def_readwrite(\"pub\",&::n::Pub::pub)"}, {70, ".Tq_int_|context.def(\"__eq__\",[](const::n::Tq<int>&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {70, ".Tq_int_|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}}},
    {false, {16}, {{16, "|class<::n::Tq<int>>(\"Tq_int_\")"}}},
    {false, {16}, {{16, "|class<::n::Tq<int>>(\"Tq_int_\")"}, {70, ".Tq_int_|context.def_readwrite(\"pub\",&::n::Pub::pub)"}, {70, ".Tq_int_|context.def(\"__eq__\",[](const::n::Tq<int>&lhs,const::n::Pub&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}, {70, ".Tq_int_|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Pub::operatorint,pybind11::const_),\"\")"}}},
    {false, {16}, {{16, "|class<::n::Tq<int>>(\"Tq_int_\")"}}}}},
  {"sm", 0, {nullptr, "inline_base", "inline_base(Same)", "hide_base(Same)", "inline_base(\"p1::Same\")", "hide_base(\"p2::Same\")", "inline_base(Same), hide_base(\"p1::Same\")", "inline_base(\"p2::Same\"), hide_base(\"n::p1::Same\")", "inline_base(\"p1::Same\", \"p2::Same\")", "hide_base(\"::n::p1::Same\", nothing)"}, {
    {false, {}, {}},
    {false, {19}, {{19, "|class<::n::SM>(\"SM\")"}, {81, ".SM|context.def_readwrite(\"a\",&::n::p1::Same::a)"}, {81, ".SM|context.def(\"sm\",pybind11::overload_cast<>(&::n::p1::Same::sm),\"\")"}, {81, ".SM|context.def_readwrite(\"b\",&::n::p2::Same::b)"}, {81, ".SM|context.def(\"sm\",pybind11::overload_cast<int>(&::n::p2::Same::sm),\"\",pybind11::arg(\"\"))"}}},
    {false, {19}, {{19, "|class<::n::SM>(\"SM\")"}, {81, ".SM|context.def_readwrite(\"a\",&::n::p1::Same::a)"}, {81, ".SM|context.def(\"sm\",pybind11::overload_cast<>(&::n::p1::Same::sm),\"\")"}, {81, ".SM|context.def_readwrite(\"b\",&::n::p2::Same::b)"}, {81, ".SM|context.def(\"sm\",pybind11::overload_cast<int>(&::n::p2::Same::sm),\"\",pybind11::arg(\"\"))"}}},
    {false, {19}, {{19, "|class<::n::SM>(\"SM\")"}}},
    {false, {19}, {{19, "|class<::n::SM,::n::p2::Same>(\"SM\")"}, {81, ".SM|context.def_readwrite(\"a\",&::n::p1::Same::a)"}, {81, ".SM|context.def(\"sm\",pybind11::overload_cast<>(&::n::p1::Same::sm),\"\")"}}},
    {false, {19}, {{19, "|class<::n::SM,::n::p1::Same>(\"SM\")"}}},
    {false, {19}, {{19, "|class<::n::SM>(\"SM\")"}, {81, ".SM|context.def_readwrite(\"b\",&::n::p2::Same::b)"}, {81, ".SM|context.def(\"sm\",pybind11::overload_cast<int>(&::n::p2::Same::sm),\"\",pybind11::arg(\"\"))"}}},
    {false, {19}, {{19, "|class<::n::SM>(\"SM\")"}, {81, ".SM|context.def_readwrite(\"b\",&::n::p2::Same::b)"}, {81, ".SM|context.def(\"sm\",pybind11::overload_cast<int>(&::n::p2::Same::sm),\"\",pybind11::arg(\"\"))"}}},
    {false, {19}, {{19, "|class<::n::SM>(\"SM\")"}, {81, ".SM|context.def_readwrite(\"a\",&::n::p1::Same::a)"}, {81, ".SM|context.def(\"sm\",pybind11::overload_cast<>(&::n::p1::Same::sm),\"\")"}, {81, ".SM|context.def_readwrite(\"b\",&::n::p2::Same::b)"}, {81, ".SM|context.def(\"sm\",pybind11::overload_cast<int>(&::n::p2::Same::sm),\"\",pybind11::arg(\"\"))"}}},
    {false, {19}, {{19, "|class<::n::SM,::n::p2::Same>(\"SM\")"}}}}},
  {"sn", 0, {nullptr, "inline_base(Same)", "inline_base(\"p2::Same\")", "hide_base(Same)", "inline_base(SM, Same)", "inline_base(SM)"}, {
    {false, {}, {}},
    {false, {}, {{84, ".SN|context.def_readwrite(\"a\",&::n::p1::Same::a)"}, {84, ".SN|context.def(\"sm\",pybind11::overload_cast<>(&::n::p1::Same::sm),\"\")"}, {84, ".SN|context.def_readwrite(\"b\",&::n::p2::Same::b)"}, {84, ".SN|context.def(\"sm\",pybind11::overload_cast<int>(&::n::p2::Same::sm),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {{84, ".SN|context.def_readwrite(\"b\",&::n::p2::Same::b)"}, {84, ".SN|context.def(\"sm\",pybind11::overload_cast<int>(&::n::p2::Same::sm),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {}},
    {false, {20}, {{20, "|class<::n::SN>(\"SN\")"}, {84, ".SN|context.def_readwrite(\"a\",&::n::p1::Same::a)"}, {84, ".SN|context.def(\"sm\",pybind11::overload_cast<>(&::n::p1::Same::sm),\"\")"}, {84, ".SN|context.def_readwrite(\"b\",&::n::p2::Same::b)"}, {84, ".SN|context.def(\"sm\",pybind11::overload_cast<int>(&::n::p2::Same::sm),\"\",pybind11::arg(\"\"))"}, {84, ".SN|context.def_readwrite(\"c\",&::n::SM::c)"}}},
    {false, {20}, {{20, "|class<::n::SN,::n::p1::Same,::n::p2::Same>(\"SN\")"}, {84, ".SN|context.def_readwrite(\"c\",&::n::SM::c)"}}}}},
}};
RegE R0({"C14.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
