// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct GENPYBIND(__sel_S) S {
  void f() GENPYBIND(__sel_f1);
  void f(int) GENPYBIND(__sel_f2);
  static void sf() GENPYBIND(__sel_sf);
  int operator()(int) GENPYBIND(__sel_call);
  operator int() const GENPYBIND(__sel_conv);
  explicit operator bool() const GENPYBIND(expose_as(__bool__));
  int field GENPYBIND(__sel_field);
  static const int cs GENPYBIND(__sel_cs) = 1;
  struct GENPYBIND(__sel_N) Nested { enum GENPYBIND(__sel_E) E { e1 GENPYBIND(__sel_e1), e2 }; };
  int getter() const GENPYBIND(__sel_get);
  void setter(int) GENPYBIND(__sel_set);
  using Al GENPYBIND(__sel_al) = Nested;
  template <typename T> T tm(T x) GENPYBIND(expose_as(renamed));
  template <typename T> T tn(T x);
};
extern template int S::tm<int>(int);
extern template int S::tn<int>(int);
extern template double S::tn<double>(double);
template <typename T, int N> struct Tp { T x; };
template struct GENPYBIND(__sel_tp1) Tp<int, 3>;
template struct GENPYBIND(__sel_tp2) Tp<S const *, -1>;
using TAlias GENPYBIND(__sel_tal) = Tp<char, 0>;
extern int v GENPYBIND(__sel_v);
namespace sub GENPYBIND(__sel_sub) { void k() GENPYBIND(__sel_k); }
long double operator""_km(long double) GENPYBIND(__sel_lit);
struct W { operator const char *() const; operator S &() GENPYBIND(__sel_cw); };
void _under(); void __dunder__(); void With123Digits();
typedef struct { int z; int y GENPYBIND(__sel_ty); } TS;
typedef enum { t0, t1 GENPYBIND(__sel_t1) } TE;
typedef struct GENPYBIND(__sel_tu) { char c; } TU;
}
)zoo";
const Zoo Z0{{
  "|class<::n::S>(\"S\")",
  ".S|class<::n::S::Nested>(\"Nested\")",
  ".S.Nested|enum<::n::S::Nested::E>(\"E\")",
  "|class<::n::Tp<char,0>>(\"TAlias\")",
  "|class<::n::Tp<int,3>>(\"Tp_int_3_\")",
  "|class<::n::Tp<const::n::S*,-1>>(\"Tp_const_n_S_1_\")",
  "|submodule<>(\"sub\")",
  "|class<::n::W>(\"W\")",
  "|class<::n::TS>(\"TS\")",
  "|enum<::n::TE>(\"TE\")",
  "|class<::n::TU>(\"TU\")",
  "|context.attr(\"v\")=::n::v",
  "|context.def(\"operator__km\",pybind11::overload_cast<longdouble>(&::n::operator\"\"_km),\"\",pybind11::arg(\"\"))",
  "|context.def(\"_under\",pybind11::overload_cast<>(&::n::_under),\"\")",
  "|context.def(\"__dunder__\",pybind11::overload_cast<>(&::n::__dunder__),\"\")",
  "|context.def(\"With123Digits\",pybind11::overload_cast<>(&::n::With123Digits),\"\")",
  ".S|context.def(pybind11::init<>(),\"\")",
  ".S|context.def(pybind11::init<const::n::S&>(),\"\",pybind11::arg(\"\"))",
  ".S|context.def(\"f\",pybind11::overload_cast<>(&::n::S::f),\"\")",
  ".S|context.def(\"f\",pybind11::overload_cast<int>(&::n::S::f),\"\",pybind11::arg(\"\"))",
  ".S|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::S::sf),\"\")",
  ".S|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))",
  ".S|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")",
  ".S|context.def(\"__bool__\",pybind11::overload_cast<>(&::n::S::operatorbool,pybind11::const_),\"\")",
  ".S|context.def_readwrite(\"field\",&::n::S::field)",
  ".S|context.def_readonly_static(\"cs\",&::n::S::cs)",
  ".S|context.attr(\"Al\")=::genpybind::getObjectForType<::n::S::Nested>()",
  ".S|context.def(\"renamed\",pybind11::overload_cast<int>(&::n::S::tm<int>),\"\",pybind11::arg(\"x\"))",
  ".S|context.def(\"tn\",pybind11::overload_cast<int>(&::n::S::tn<int>),\"\",pybind11::arg(\"x\"))",
  ".S|context.def(\"tn\",pybind11::overload_cast<double>(&::n::S::tn<double>),\"\",pybind11::arg(\"x\"))",
  ".S|context.def_property(\"prop\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_),pybind11::overload_cast<int>(&::n::S::setter))",
  ".S.Nested|context.def(pybind11::init<>(),\"\")",
  ".S.Nested|context.def(pybind11::init<const::n::S::Nested&>(),\"\",pybind11::arg(\"\"))",
  ".S.Nested.E|context.value(\"e1\",::n::S::Nested::E::e1)",
  ".S.Nested.E|context.value(\"e2\",::n::S::Nested::E::e2)",
  ".S.Nested.E|context.export_values()",
  ".TAlias|context.def(pybind11::init<>(),\"\")",
  ".TAlias|context.def(pybind11::init<const::n::Tp<char,0>&>(),\"\",pybind11::arg(\"\"))",
  ".TAlias|context.def_readwrite(\"x\",&::n::Tp<char,0>::x)",
  ".Tp_int_3_|context.def_readwrite(\"x\",&::n::Tp<int,3>::x)",
  ".Tp_int_3_|context.def(pybind11::init<>(),\"\")",
  ".Tp_int_3_|context.def(pybind11::init<const::n::Tp<int,3>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_const_n_S_1_|context.def_readwrite(\"x\",&::n::Tp<constn::S*,-1>::x)",
  ".Tp_const_n_S_1_|context.def(pybind11::init<>(),\"\")",
  ".Tp_const_n_S_1_|context.def(pybind11::init<const::n::Tp<const::n::S*,-1>&>(),\"\",pybind11::arg(\"\"))",
  ".sub|context.def(\"k\",pybind11::overload_cast<>(&::n::sub::k),\"\")",
  ".W|context.def(pybind11::init<>(),\"\")",
  ".W|context.def(pybind11::init<const::n::W&>(),\"\",pybind11::arg(\"\"))",
  ".W|context.def(\"operator_const_char_\",pybind11::overload_cast<>(&::n::W::operatorconstchar*,pybind11::const_),\"\")",
  ".W|context.def(\"operator_n_S_\",pybind11::overload_cast<>(&::n::W::operatorn::S&),\"\")",
  ".TS|context.def(pybind11::init<>(),\"\")",
  ".TS|context.def(pybind11::init<const::n::TS&>(),\"\",pybind11::arg(\"\"))",
  ".TS|context.def_readwrite(\"z\",&::n::TS::z)",
  ".TS|context.def_readwrite(\"y\",&::n::TS::y)",
  ".TE|context.value(\"t0\",::n::TE::t0)",
  ".TE|context.value(\"t1\",::n::TE::t1)",
  ".TE|context.export_values()",
  ".TU|context.def(pybind11::init<>(),\"\")",
  ".TU|context.def(pybind11::init<const::n::TU&>(),\"\",pybind11::arg(\"\"))",
  ".TU|context.def_readwrite(\"c\",&::n::TU::c)"
}, {
  {"S", 0, {nullptr, "expose_as(Z)", "expose_as(Z), expose_as(default)", "expose_as(A), expose_as(B)", "expose_as(_1)", "expose_as(Q), visible(default)", "visible(default), expose_as(Q)", "expose_as(Q), visible", "expose_as(Q), hidden, visible(default)", "expose_as(Q), dynamic_attr"}, {
    {false, {}, {}},
    {false, {0, 1, 2, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35}, {{0, "|class<::n::S>(\"Z\")"}, {0, ".Z|class<::n::S::Nested>(\"Nested\")"}, {0, ".Z.Nested|enum<::n::S::Nested::E>(\"E\")"}, {16, ".Z|context.def(pybind11::init<>(),\"\")"}, {16, ".Z|context.def(pybind11::init<const::n::S&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Z|context.def(\"f\",pybind11::overload_cast<>(&::n::S::f),\"\")"}, {16, ".Z|context.def(\"f\",pybind11::overload_cast<int>(&::n::S::f),\"\",pybind11::arg(\"\"))"}, {16, ".Z|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::S::sf),\"\")"}, {16, ".Z|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))"}, {16, ".Z|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")"}, {16, ".Z|context.def(\"__bool__\",pybind11::overload_cast<>(&::n::S::operatorbool,pybind11::const_),\"\")"}, {16, ".Z|context.def_readwrite(\"field\",&::n::S::field)"}, {16, ".Z|context.def_readonly_static(\"cs\",&::n::S::cs)"}, {16, ".Z|context.attr(\"Al\")=::genpybind::getObjectForType<::n::S::Nested>()"}, {16, ".Z|context.def(\"renamed\",pybind11::overload_cast<int>(&::n::S::tm<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Z|context.def(\"tn\",pybind11::overload_cast<int>(&::n::S::tn<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Z|context.def(\"tn\",pybind11::overload_cast<double>(&::n::S::tn<double>),\"\",pybind11::arg(\"x\"))"}, {16, ".Z|context.def_property(\"prop\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_),pybind11::overload_cast<int>(&::n::S::setter))"}, {16, ".Z.Nested|context.def(pybind11::init<>(),\"\")"}, {16, ".Z.Nested|context.def(pybind11::init<const::n::S::Nested&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Z.Nested.E|context.value(\"e1\",::n::S::Nested::E::e1)"}, {16, ".Z.Nested.E|context.value(\"e2\",::n::S::Nested::E::e2)"}, {16, ".Z.Nested.E|context.export_values()"}}},
    {false, {}, {}},
    {false, {0, 1, 2, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35}, {{0, "|class<::n::S>(\"B\")"}, {0, ".B|class<::n::S::Nested>(\"Nested\")"}, {0, ".B.Nested|enum<::n::S::Nested::E>(\"E\")"}, {16, ".B|context.def(pybind11::init<>(),\"\")"}, {16, ".B|context.def(pybind11::init<const::n::S&>(),\"\",pybind11::arg(\"\"))"}, {16, ".B|context.def(\"f\",pybind11::overload_cast<>(&::n::S::f),\"\")"}, {16, ".B|context.def(\"f\",pybind11::overload_cast<int>(&::n::S::f),\"\",pybind11::arg(\"\"))"}, {16, ".B|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::S::sf),\"\")"}, {16, ".B|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))"}, {16, ".B|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")"}, {16, ".B|context.def(\"__bool__\",pybind11::overload_cast<>(&::n::S::operatorbool,pybind11::const_),\"\")"}, {16, ".B|context.def_readwrite(\"field\",&::n::S::field)"}, {16, ".B|context.def_readonly_static(\"cs\",&::n::S::cs)"}, {16, ".B|context.attr(\"Al\")=::genpybind::getObjectForType<::n::S::Nested>()"}, {16, ".B|context.def(\"renamed\",pybind11::overload_cast<int>(&::n::S::tm<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".B|context.def(\"tn\",pybind11::overload_cast<int>(&::n::S::tn<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".B|context.def(\"tn\",pybind11::overload_cast<double>(&::n::S::tn<double>),\"\",pybind11::arg(\"x\"))"}, {16, ".B|context.def_property(\"prop\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_),pybind11::overload_cast<int>(&::n::S::setter))"}, {16, ".B.Nested|context.def(pybind11::init<>(),\"\")"}, {16, ".B.Nested|context.def(pybind11::init<const::n::S::Nested&>(),\"\",pybind11::arg(\"\"))"}, {16, ".B.Nested.E|context.value(\"e1\",::n::S::Nested::E::e1)"}, {16, ".B.Nested.E|context.value(\"e2\",::n::S::Nested::E::e2)"}, {16, ".B.Nested.E|context.export_values()"}}},
    {false, {0, 1, 2, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35}, {{0, "|class<::n::S>(\"_1\")"}, {0, "._1|class<::n::S::Nested>(\"Nested\")"}, {0, "._1.Nested|enum<::n::S::Nested::E>(\"E\")"}, {16, "._1|context.def(pybind11::init<>(),\"\")"}, {16, "._1|context.def(pybind11::init<const::n::S&>(),\"\",pybind11::arg(\"\"))"}, {16, "._1|context.def(\"f\",pybind11::overload_cast<>(&::n::S::f),\"\")"}, {16, "._1|context.def(\"f\",pybind11::overload_cast<int>(&::n::S::f),\"\",pybind11::arg(\"\"))"}, {16, "._1|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::S::sf),\"\")"}, {16, "._1|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))"}, {16, "._1|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")"}, {16, "._1|context.def(\"__bool__\",pybind11::overload_cast<>(&::n::S::operatorbool,pybind11::const_),\"\")"}, {16, "._1|context.def_readwrite(\"field\",&::n::S::field)"}, {16, "._1|context.def_readonly_static(\"cs\",&::n::S::cs)"}, {16, "._1|context.attr(\"Al\")=::genpybind::getObjectForType<::n::S::Nested>()"}, {16, "._1|context.def(\"renamed\",pybind11::overload_cast<int>(&::n::S::tm<int>),\"\",pybind11::arg(\"x\"))"}, {16, "._1|context.def(\"tn\",pybind11::overload_cast<int>(&::n::S::tn<int>),\"\",pybind11::arg(\"x\"))"}, {16, "._1|context.def(\"tn\",pybind11::overload_cast<double>(&::n::S::tn<double>),\"\",pybind11::arg(\"x\"))"}, {16, "._1|context.def_property(\"prop\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_),pybind11::overload_cast<int>(&::n::S::setter))"}, {16, "._1.Nested|context.def(pybind11::init<>(),\"\")"}, {16, "._1.Nested|context.def(pybind11::init<const::n::S::Nested&>(),\"\",pybind11::arg(\"\"))"}, {16, "._1.Nested.E|context.value(\"e1\",::n::S::Nested::E::e1)"}, {16, "._1.Nested.E|context.value(\"e2\",::n::S::Nested::E::e2)"}, {16, "._1.Nested.E|context.export_values()"}}},
    {false, {0, 1, 2, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35}, {{0, "|class<::n::S>(\"Q\")"}, {0, ".Q|class<::n::S::Nested>(\"Nested\")"}, {0, ".Q.Nested|enum<::n::S::Nested::E>(\"E\")"}, {16, ".Q|context.def(pybind11::init<>(),\"\")"}, {16, ".Q|context.def(pybind11::init<const::n::S&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def(\"f\",pybind11::overload_cast<>(&::n::S::f),\"\")"}, {16, ".Q|context.def(\"f\",pybind11::overload_cast<int>(&::n::S::f),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::S::sf),\"\")"}, {16, ".Q|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")"}, {16, ".Q|context.def(\"__bool__\",pybind11::overload_cast<>(&::n::S::operatorbool,pybind11::const_),\"\")"}, {16, ".Q|context.def_readwrite(\"field\",&::n::S::field)"}, {16, ".Q|context.def_readonly_static(\"cs\",&::n::S::cs)"}, {16, ".Q|context.attr(\"Al\")=::genpybind::getObjectForType<::n::S::Nested>()"}, {16, ".Q|context.def(\"renamed\",pybind11::overload_cast<int>(&::n::S::tm<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def(\"tn\",pybind11::overload_cast<int>(&::n::S::tn<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def(\"tn\",pybind11::overload_cast<double>(&::n::S::tn<double>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def_property(\"prop\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_),pybind11::overload_cast<int>(&::n::S::setter))"}, {16, ".Q.Nested|context.def(pybind11::init<>(),\"\")"}, {16, ".Q.Nested|context.def(pybind11::init<const::n::S::Nested&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Q.Nested.E|context.value(\"e1\",::n::S::Nested::E::e1)"}, {16, ".Q.Nested.E|context.value(\"e2\",::n::S::Nested::E::e2)"}, {16, ".Q.Nested.E|context.export_values()"}}},
    {false, {0, 1, 2, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35}, {{0, "|class<::n::S>(\"Q\")"}, {0, ".Q|class<::n::S::Nested>(\"Nested\")"}, {0, ".Q.Nested|enum<::n::S::Nested::E>(\"E\")"}, {16, ".Q|context.def(pybind11::init<>(),\"\")"}, {16, ".Q|context.def(pybind11::init<const::n::S&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def(\"f\",pybind11::overload_cast<>(&::n::S::f),\"\")"}, {16, ".Q|context.def(\"f\",pybind11::overload_cast<int>(&::n::S::f),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::S::sf),\"\")"}, {16, ".Q|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")"}, {16, ".Q|context.def(\"__bool__\",pybind11::overload_cast<>(&::n::S::operatorbool,pybind11::const_),\"\")"}, {16, ".Q|context.def_readwrite(\"field\",&::n::S::field)"}, {16, ".Q|context.def_readonly_static(\"cs\",&::n::S::cs)"}, {16, ".Q|context.attr(\"Al\")=::genpybind::getObjectForType<::n::S::Nested>()"}, {16, ".Q|context.def(\"renamed\",pybind11::overload_cast<int>(&::n::S::tm<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def(\"tn\",pybind11::overload_cast<int>(&::n::S::tn<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def(\"tn\",pybind11::overload_cast<double>(&::n::S::tn<double>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def_property(\"prop\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_),pybind11::overload_cast<int>(&::n::S::setter))"}, {16, ".Q.Nested|context.def(pybind11::init<>(),\"\")"}, {16, ".Q.Nested|context.def(pybind11::init<const::n::S::Nested&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Q.Nested.E|context.value(\"e1\",::n::S::Nested::E::e1)"}, {16, ".Q.Nested.E|context.value(\"e2\",::n::S::Nested::E::e2)"}, {16, ".Q.Nested.E|context.export_values()"}}},
    {false, {0, 1, 2, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35}, {{0, "|class<::n::S>(\"Q\")"}, {0, ".Q|class<::n::S::Nested>(\"Nested\")"}, {0, ".Q.Nested|enum<::n::S::Nested::E>(\"E\")"}, {16, ".Q|context.def(pybind11::init<>(),\"\")"}, {16, ".Q|context.def(pybind11::init<const::n::S&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def(\"f\",pybind11::overload_cast<>(&::n::S::f),\"\")"}, {16, ".Q|context.def(\"f\",pybind11::overload_cast<int>(&::n::S::f),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::S::sf),\"\")"}, {16, ".Q|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")"}, {16, ".Q|context.def(\"__bool__\",pybind11::overload_cast<>(&::n::S::operatorbool,pybind11::const_),\"\")"}, {16, ".Q|context.def_readwrite(\"field\",&::n::S::field)"}, {16, ".Q|context.def_readonly_static(\"cs\",&::n::S::cs)"}, {16, ".Q|context.attr(\"Al\")=::genpybind::getObjectForType<::n::S::Nested>()"}, {16, ".Q|context.def(\"renamed\",pybind11::overload_cast<int>(&::n::S::tm<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def(\"tn\",pybind11::overload_cast<int>(&::n::S::tn<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def(\"tn\",pybind11::overload_cast<double>(&::n::S::tn<double>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def_property(\"prop\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_),pybind11::overload_cast<int>(&::n::S::setter))"}, {16, ".Q.Nested|context.def(pybind11::init<>(),\"\")"}, {16, ".Q.Nested|context.def(pybind11::init<const::n::S::Nested&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Q.Nested.E|context.value(\"e1\",::n::S::Nested::E::e1)"}, {16, ".Q.Nested.E|context.value(\"e2\",::n::S::Nested::E::e2)"}, {16, ".Q.Nested.E|context.export_values()"}}},
    {false, {0, 1, 2, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35}, {{0, "|class<::n::S>(\"Q\")"}, {0, ".Q|class<::n::S::Nested>(\"Nested\")"}, {0, ".Q.Nested|enum<::n::S::Nested::E>(\"E\")"}, {16, ".Q|context.def(pybind11::init<>(),\"\")"}, {16, ".Q|context.def(pybind11::init<const::n::S&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def(\"f\",pybind11::overload_cast<>(&::n::S::f),\"\")"}, {16, ".Q|context.def(\"f\",pybind11::overload_cast<int>(&::n::S::f),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::S::sf),\"\")"}, {16, ".Q|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")"}, {16, ".Q|context.def(\"__bool__\",pybind11::overload_cast<>(&::n::S::operatorbool,pybind11::const_),\"\")"}, {16, ".Q|context.def_readwrite(\"field\",&::n::S::field)"}, {16, ".Q|context.def_readonly_static(\"cs\",&::n::S::cs)"}, {16, ".Q|context.attr(\"Al\")=::genpybind::getObjectForType<::n::S::Nested>()"}, {16, ".Q|context.def(\"renamed\",pybind11::overload_cast<int>(&::n::S::tm<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def(\"tn\",pybind11::overload_cast<int>(&::n::S::tn<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def(\"tn\",pybind11::overload_cast<double>(&::n::S::tn<double>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def_property(\"prop\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_),pybind11::overload_cast<int>(&::n::S::setter))"}, {16, ".Q.Nested|context.def(pybind11::init<>(),\"\")"}, {16, ".Q.Nested|context.def(pybind11::init<const::n::S::Nested&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Q.Nested.E|context.value(\"e1\",::n::S::Nested::E::e1)"}, {16, ".Q.Nested.E|context.value(\"e2\",::n::S::Nested::E::e2)"}, {16, ".Q.Nested.E|context.export_values()"}}},
    {false, {0, 1, 2, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35}, {{0, "|class<::n::S>(\"Q\",pybind11::dynamic_attr())"}, {0, ".Q|class<::n::S::Nested>(\"Nested\")"}, {0, ".Q.Nested|enum<::n::S::Nested::E>(\"E\")"}, {16, ".Q|context.def(pybind11::init<>(),\"\")"}, {16, ".Q|context.def(pybind11::init<const::n::S&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def(\"f\",pybind11::overload_cast<>(&::n::S::f),\"\")"}, {16, ".Q|context.def(\"f\",pybind11::overload_cast<int>(&::n::S::f),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::S::sf),\"\")"}, {16, ".Q|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))"}, {16, ".Q|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")"}, {16, ".Q|context.def(\"__bool__\",pybind11::overload_cast<>(&::n::S::operatorbool,pybind11::const_),\"\")"}, {16, ".Q|context.def_readwrite(\"field\",&::n::S::field)"}, {16, ".Q|context.def_readonly_static(\"cs\",&::n::S::cs)"}, {16, ".Q|context.attr(\"Al\")=::genpybind::getObjectForType<::n::S::Nested>()"}, {16, ".Q|context.def(\"renamed\",pybind11::overload_cast<int>(&::n::S::tm<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def(\"tn\",pybind11::overload_cast<int>(&::n::S::tn<int>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def(\"tn\",pybind11::overload_cast<double>(&::n::S::tn<double>),\"\",pybind11::arg(\"x\"))"}, {16, ".Q|context.def_property(\"prop\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_),pybind11::overload_cast<int>(&::n::S::setter))"}, {16, ".Q.Nested|context.def(pybind11::init<>(),\"\")"}, {16, ".Q.Nested|context.def(pybind11::init<const::n::S::Nested&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Q.Nested.E|context.value(\"e1\",::n::S::Nested::E::e1)"}, {16, ".Q.Nested.E|context.value(\"e2\",::n::S::Nested::E::e2)"}, {16, ".Q.Nested.E|context.export_values()"}}}}},
  {"f1", 0, {nullptr, "expose_as(g)", "expose_as(__len__)", "expose_as(g), visible(default)", "visible, expose_as(g), return_value_policy(copy)"}, {
    {false, {}, {}},
    {false, {18}, {{18, ".S|context.def(\"g\",pybind11::overload_cast<>(&::n::S::f),\"\")"}}},
    {false, {18}, {{18, ".S|context.def(\"__len__\",pybind11::overload_cast<>(&::n::S::f),\"\")"}}},
    {false, {18}, {{18, ".S|context.def(\"g\",pybind11::overload_cast<>(&::n::S::f),\"\")"}}},
    {false, {18}, {{18, ".S|context.def(\"g\",pybind11::overload_cast<>(&::n::S::f),\"\",pybind11::return_value_policy::copy)"}}}}},
  {"f2", 0, {nullptr, "expose_as(h)", "expose_as(f)"}, {
    {false, {}, {}},
    {false, {19}, {{19, ".S|context.def(\"h\",pybind11::overload_cast<int>(&::n::S::f),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {}}}},
  {"sf", 0, {nullptr, "expose_as(f)"}, {
    {false, {}, {}},
    {false, {20}, {{20, ".S|context.def_static(\"f\",pybind11::overload_cast<>(&::n::S::sf),\"\")"}}}}},
  {"call", 0, {nullptr, "expose_as(invoke)", "expose_as(default)"}, {
    {false, {}, {}},
    {false, {21}, {{21, ".S|context.def(\"invoke\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {}}}},
  {"conv", 0, {nullptr, "expose_as(__int__)", "expose_as(to_int)"}, {
    {false, {}, {}},
    {false, {22}, {{22, ".S|context.def(\"__int__\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")"}}},
    {false, {22}, {{22, ".S|context.def(\"to_int\",pybind11::overload_cast<>(&::n::S::operatorint,pybind11::const_),\"\")"}}}}},
  {"field", 0, {nullptr, "expose_as(other)", "expose_as(field_), readonly", "readonly, expose_as(fd), visible(default)"}, {
    {false, {}, {}},
    {false, {24}, {{24, ".S|context.def_readwrite(\"other\",&::n::S::field)"}}},
    {false, {24}, {{24, ".S|context.def_readonly(\"field_\",&::n::S::field)"}}},
    {false, {24}, {{24, ".S|context.def_readonly(\"fd\",&::n::S::field)"}}}}},
  {"cs", 0, {nullptr, "expose_as(CS)"}, {
    {false, {}, {}},
    {false, {25}, {{25, ".S|context.def_readonly_static(\"CS\",&::n::S::cs)"}}}}},
  {"N", 0, {nullptr, "expose_as(In)"}, {
    {false, {}, {}},
    {false, {1, 2, 31, 32, 33, 34, 35}, {{1, ".S|class<::n::S::Nested>(\"In\")"}, {1, ".S.In|enum<::n::S::Nested::E>(\"E\")"}, {31, ".S.In|context.def(pybind11::init<>(),\"\")"}, {31, ".S.In|context.def(pybind11::init<const::n::S::Nested&>(),\"\",pybind11::arg(\"\"))"}, {31, ".S.In.E|context.value(\"e1\",::n::S::Nested::E::e1)"}, {31, ".S.In.E|context.value(\"e2\",::n::S::Nested::E::e2)"}, {31, ".S.In.E|context.export_values()"}}}}},
  {"E", 0, {nullptr, "expose_as(En)", "expose_as(En), arithmetic", "expose_as(En), export_values(false), visible(default)"}, {
    {false, {}, {}},
    {false, {2, 33, 34, 35}, {{2, ".S.Nested|enum<::n::S::Nested::E>(\"En\")"}, {33, ".S.Nested.En|context.value(\"e1\",::n::S::Nested::E::e1)"}, {33, ".S.Nested.En|context.value(\"e2\",::n::S::Nested::E::e2)"}, {33, ".S.Nested.En|context.export_values()"}}},
    {false, {2, 33, 34, 35}, {{2, ".S.Nested|enum<::n::S::Nested::E>(\"En\",pybind11::arithmetic())"}, {33, ".S.Nested.En|context.value(\"e1\",::n::S::Nested::E::e1)"}, {33, ".S.Nested.En|context.value(\"e2\",::n::S::Nested::E::e2)"}, {33, ".S.Nested.En|context.export_values()"}}},
    {false, {2, 33, 34, 35}, {{2, ".S.Nested|enum<::n::S::Nested::E>(\"En\")"}, {33, ".S.Nested.En|context.value(\"e1\",::n::S::Nested::E::e1)"}, {33, ".S.Nested.En|context.value(\"e2\",::n::S::Nested::E::e2)"}}}}},
  {"e1", 0, {nullptr, "expose_as(E_ONE)", "expose_as(E_ONE), visible(default)"}, {
    {false, {}, {}},
    {false, {33}, {{33, ".S.Nested.E|context.value(\"E_ONE\",::n::S::Nested::E::e1)"}}},
    {false, {33}, {{33, ".S.Nested.E|context.value(\"E_ONE\",::n::S::Nested::E::e1)"}}}}},
  {"get", 0, {"getter_for(prop)", "getter_for(prop, p2)", "getter_for(prop), expose_as(never)"}, {
    {false, {}, {}},
    {false, {}, {{30, ".S|context.def_property_readonly(\"p2\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_))"}}},
    {false, {}, {}}}},
  {"set", 0, {"setter_for(prop)", nullptr}, {
    {false, {}, {}},
    {false, {30}, {{26, ".S|context.def(\"setter\",pybind11::overload_cast<int>(&::n::S::setter),\"\",pybind11::arg(\"\"))"}, {30, ".S|context.def_property_readonly(\"prop\",pybind11::overload_cast<>(&::n::S::getter,pybind11::const_))"}}}}},
  {"al", 0, {"visible", "expose_as(Alias)", "visible, expose_as(Al2)"}, {
    {false, {}, {}},
    {false, {26}, {{26, ".S|context.attr(\"Alias\")=::genpybind::getObjectForType<::n::S::Nested>()"}}},
    {false, {26}, {{26, ".S|context.attr(\"Al2\")=::genpybind::getObjectForType<::n::S::Nested>()"}}}}},
  {"tp1", 0, {"visible", "expose_as(Tp1)"}, {
    {false, {}, {}},
    {false, {4, 39, 40, 41}, {{4, "|class<::n::Tp<int,3>>(\"Tp1\")"}, {39, ".Tp1|context.def_readwrite(\"x\",&::n::Tp<int,3>::x)"}, {39, ".Tp1|context.def(pybind11::init<>(),\"\")"}, {39, ".Tp1|context.def(pybind11::init<const::n::Tp<int,3>&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"tp2", 0, {"visible", "expose_as(Tp2)"}, {
    {false, {}, {}},
    {false, {5, 42, 43, 44}, {{5, "|class<::n::Tp<const::n::S*,-1>>(\"Tp2\")"}, {42, ".Tp2|context.def_readwrite(\"x\",&::n::Tp<constn::S*,-1>::x)"}, {42, ".Tp2|context.def(pybind11::init<>(),\"\")"}, {42, ".Tp2|context.def(pybind11::init<const::n::Tp<const::n::S*,-1>&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"tal", 0, {"expose_here", "expose_here, expose_as(Ren)", "visible", "encourage", "encourage, expose_as(Ren)"}, {
    {false, {}, {}},
    {false, {3, 36, 37, 38}, {{3, "|class<::n::Tp<char,0>>(\"Ren\")"}, {36, ".Ren|context.def(pybind11::init<>(),\"\")"}, {36, ".Ren|context.def(pybind11::init<const::n::Tp<char,0>&>(),\"\",pybind11::arg(\"\"))"}, {36, ".Ren|context.def_readwrite(\"x\",&::n::Tp<char,0>::x)"}}},
    {false, {3, 36, 37, 38}, {{3, "|class<::n::Tp<char,0>>(\"Tp_char_0_\")"}, {11, "|context.attr(\"TAlias\")=::genpybind::getObjectForType<::n::Tp<char,0>>()"}, {36, ".Tp_char_0_|context.def(pybind11::init<>(),\"\")"}, {36, ".Tp_char_0_|context.def(pybind11::init<const::n::Tp<char,0>&>(),\"\",pybind11::arg(\"\"))"}, {36, ".Tp_char_0_|context.def_readwrite(\"x\",&::n::Tp<char,0>::x)"}}},
    {false, {3, 36, 37, 38}, {{3, "|class<::n::Tp<char,0>>(\"Tp_char_0_\")"}, {11, "|context.attr(\"TAlias\")=::genpybind::getObjectForType<::n::Tp<char,0>>()"}, {36, ".Tp_char_0_|context.def(pybind11::init<>(),\"\")"}, {36, ".Tp_char_0_|context.def(pybind11::init<const::n::Tp<char,0>&>(),\"\",pybind11::arg(\"\"))"}, {36, ".Tp_char_0_|context.def_readwrite(\"x\",&::n::Tp<char,0>::x)"}}},
    {false, {3, 36, 37, 38}, {{3, "|class<::n::Tp<char,0>>(\"Tp_char_0_\")"}, {11, "|context.attr(\"Ren\")=::genpybind::getObjectForType<::n::Tp<char,0>>()"}, {36, ".Tp_char_0_|context.def(pybind11::init<>(),\"\")"}, {36, ".Tp_char_0_|context.def(pybind11::init<const::n::Tp<char,0>&>(),\"\",pybind11::arg(\"\"))"}, {36, ".Tp_char_0_|context.def_readwrite(\"x\",&::n::Tp<char,0>::x)"}}}}},
  {"v", 0, {nullptr, "expose_as(w)", "expose_as(w), expose_as(default)", "expose_as(w), visible(default)", "expose_as(w), readonly"}, {
    {false, {}, {}},
    {false, {11}, {{11, "|context.attr(\"w\")=::n::v"}}},
    {false, {}, {}},
    {false, {11}, {{11, "|context.attr(\"w\")=::n::v"}}},
    {false, {11}, {{11, "|context.attr(\"w\")=::n::v"}}}}},
  {"sub", 0, {"module", "module(deep)", "module, expose_as(named)", "module(a), expose_as(b)", "module(a), visible(default)", "module(a), only_expose_in(example)", "expose_as(nomod)"}, {
    {false, {}, {}},
    {false, {6, 45}, {{6, "|submodule<>(\"deep\")"}, {45, ".deep|context.def(\"k\",pybind11::overload_cast<>(&::n::sub::k),\"\")"}}},
    {false, {6, 45}, {{6, "|submodule<>(\"named\")"}, {45, ".named|context.def(\"k\",pybind11::overload_cast<>(&::n::sub::k),\"\")"}}},
    {false, {6, 45}, {{6, "|submodule<>(\"b\")"}, {45, ".b|context.def(\"k\",pybind11::overload_cast<>(&::n::sub::k),\"\")"}}},
    {false, {6, 45}, {{6, "|submodule<>(\"a\")"}, {45, ".a|context.def(\"k\",pybind11::overload_cast<>(&::n::sub::k),\"\")"}}},
    {false, {6, 45}, {{6, "|submodule<>(\"a\")"}, {45, ".a|context.def(\"k\",pybind11::overload_cast<>(&::n::sub::k),\"\")"}}},
    {false, {6, 45}, {{45, "|context.def(\"k\",pybind11::overload_cast<>(&::n::sub::k),\"\")"}}}}},
  {"k", 0, {nullptr, "expose_as(kk)"}, {
    {false, {}, {}},
    {false, {45}, {{45, ".sub|context.def(\"kk\",pybind11::overload_cast<>(&::n::sub::k),\"\")"}}}}},
  {"lit", 0, {nullptr, "expose_as(km)"}, {
    {false, {}, {}},
    {false, {12}, {{12, "|context.def(\"km\",pybind11::overload_cast<longdouble>(&::n::operator\"\"_km),\"\",pybind11::arg(\"\"))"}}}}},
  {"cw", 0, {nullptr, "expose_as(as_s)"}, {
    {false, {}, {}},
    {false, {49}, {{49, ".W|context.def(\"as_s\",pybind11::overload_cast<>(&::n::W::operatorn::S&),\"\")"}}}}},
  {"ty", 0, {nullptr, "readonly", "expose_as(why)"}, {
    {false, {}, {}},
    {false, {53}, {{53, ".TS|context.def_readonly(\"y\",&::n::TS::y)"}}},
    {false, {53}, {{53, ".TS|context.def_readwrite(\"why\",&::n::TS::y)"}}}}},
  {"t1", 0, {nullptr, "expose_as(T_ONE)"}, {
    {false, {}, {}},
    {false, {55}, {{55, ".TE|context.value(\"T_ONE\",::n::TE::t1)"}}}}},
  {"tu", 0, {nullptr, "expose_as(Union)", "hidden"}, {
    {false, {}, {}},
    {false, {10, 57, 58, 59}, {{10, "|class<::n::TU>(\"Union\")"}, {57, ".Union|context.def(pybind11::init<>(),\"\")"}, {57, ".Union|context.def(pybind11::init<const::n::TU&>(),\"\",pybind11::arg(\"\"))"}, {57, ".Union|context.def_readwrite(\"c\",&::n::TU::c)"}}},
    {false, {10, 57, 58, 59}, {}}}},
}};
RegE R0({"C05.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
