// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
template <typename T> struct Never { static_assert(sizeof(T) == 0, "must not be instantiated"); };
template <typename T> struct Lazy { int never() { return Never<T>().x; } };
namespace n GENPYBIND(visible) {
template <typename T> struct One { T t; T f(T x) const; static T s; enum E { e }; struct In { T i; void g(); }; One(T); template <typename U> void tm(U); };
template <typename T, int N> struct Arr { T data[N]; int size() const { return N; } };
template <template <typename> class C> struct TT { C<int> c; };
template <typename T> struct Spec { T primary; }; template <> struct Spec<int> { int special; }; template <typename T> struct Spec<T *> { T partial; };
template <typename T> struct Nested { template <typename U> struct Inner { T t; U u; void m(); }; };
template <typename T> struct Self { Self *next; Self<T *> *ptr; Self(Self const &) = default; };
template <typename T> struct WithAlias { using Al GENPYBIND(visible) = One<T>; T w; };
using A1 GENPYBIND(__sel_a1) = One<char>;
using A4 GENPYBIND(__sel_a4) = Arr<int, 3>;
using A6 GENPYBIND(__sel_a6) = TT<One>;
using A7 GENPYBIND(__sel_a7) = Spec<double>;
using A8 GENPYBIND(__sel_a8) = Spec<int>;
using A9 GENPYBIND(__sel_a9) = Spec<int *>;
using A10 GENPYBIND(__sel_a10) = Nested<char>::Inner<int>;
using A11 GENPYBIND(__sel_a11) = Self<bool>;
using A12 GENPYBIND(__sel_a12) = const One<unsigned>;
using A13 = One<unsigned char>; using A14 GENPYBIND(__sel_a14) = A13;
using A15 GENPYBIND(visible) = One<int>; using A16 GENPYBIND(__sel_a16) = One<int>;
struct GENPYBIND(__sel_hold) Hold { using A17 GENPYBIND(__sel_a17) = One<signed char>; };
using A18 GENPYBIND(__sel_a18) = Lazy<int>;
using A19 GENPYBIND(__sel_a19) = WithAlias<wchar_t>;
extern template struct GENPYBIND(__sel_e1) Arr<char, 2>;
template struct GENPYBIND(__sel_e2) Arr<char, 4>;
template struct Arr<char, 5>; extern template struct Arr<char, 6>;
}
namespace h { using B1 GENPYBIND(__sel_b1) = n::Arr<long, 7>; template <typename T> struct Hid { T t; }; using B2 GENPYBIND(__sel_b2) = Hid<int>; extern template struct GENPYBIND(__sel_b3) Hid<char>; }
)zoo";
const Zoo Z0{{
  "|class<::n::One<int>>(\"One_int_\")",
  ".One_int_|enum<::n::One<int>::E>(\"E\")",
  ".One_int_|class<::n::One<int>::In>(\"In\")",
  "|class<::n::Spec<int>>(\"Spec_int_\")",
  "|class<::n::Nested<char>>(\"Nested_char_\")",
  "|class<::n::Hold>(\"Hold\")",
  "|class<::n::Arr<char,2>>(\"Arr_char_2_\")",
  "|class<::n::Arr<char,4>>(\"Arr_char_4_\")",
  "|class<::n::Arr<char,5>>(\"Arr_char_5_\")",
  "|class<::n::Arr<char,6>>(\"Arr_char_6_\")",
  "|class<::h::Hid<char>>(\"Hid_char_\")",
  "|context.attr(\"A15\")=::genpybind::getObjectForType<::n::One<int>>()",
  ".One_int_|context.def(pybind11::init<const::n::One<int>&>(),\"\",pybind11::arg(\"\"))",
  ".One_int_|context.def_readwrite(\"t\",&::n::One<int>::t)",
  ".One_int_|context.def(\"f\",pybind11::overload_cast<int>(&::n::One<int>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))",
  ".One_int_|context.def_readwrite_static(\"s\",&::n::One<int>::s)",
  ".One_int_|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".One_int_.E|context.value(\"e\",::n::One<int>::E::e)",
  ".One_int_.E|context.export_values()",
  ".One_int_.In|context.def(pybind11::init<>(),\"\")",
  ".One_int_.In|context.def(pybind11::init<const::n::One<int>::In&>(),\"\",pybind11::arg(\"\"))",
  ".One_int_.In|context.def_readwrite(\"i\",&::n::One<int>::In::i)",
  ".One_int_.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<int>::In::g),\"\")",
  ".Spec_int_|context.def(pybind11::init<>(),\"\")",
  ".Spec_int_|context.def(pybind11::init<const::n::Spec<int>&>(),\"\",pybind11::arg(\"\"))",
  ".Spec_int_|context.def_readwrite(\"special\",&::n::Spec<int>::special)",
  ".Nested_char_|context.def(pybind11::init<>(),\"\")",
  ".Nested_char_|context.def(pybind11::init<const::n::Nested<char>&>(),\"\",pybind11::arg(\"\"))",
  ".Hold|context.def(pybind11::init<>(),\"\")",
  ".Hold|context.def(pybind11::init<const::n::Hold&>(),\"\",pybind11::arg(\"\"))",
  ".Arr_char_2_|context.def_readwrite(\"data\",&::n::Arr<char,2>::data)",
  ".Arr_char_2_|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<char,2>::size,pybind11::const_),\"\")",
  ".Arr_char_2_|context.def(pybind11::init<>(),\"\")",
  ".Arr_char_2_|context.def(pybind11::init<const::n::Arr<char,2>&>(),\"\",pybind11::arg(\"\"))",
  ".Arr_char_4_|context.def_readwrite(\"data\",&::n::Arr<char,4>::data)",
  ".Arr_char_4_|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<char,4>::size,pybind11::const_),\"\")",
  ".Arr_char_4_|context.def(pybind11::init<>(),\"\")",
  ".Arr_char_4_|context.def(pybind11::init<const::n::Arr<char,4>&>(),\"\",pybind11::arg(\"\"))",
  ".Arr_char_5_|context.def_readwrite(\"data\",&::n::Arr<char,5>::data)",
  ".Arr_char_5_|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<char,5>::size,pybind11::const_),\"\")",
  ".Arr_char_5_|context.def(pybind11::init<>(),\"\")",
  ".Arr_char_5_|context.def(pybind11::init<const::n::Arr<char,5>&>(),\"\",pybind11::arg(\"\"))",
  ".Arr_char_6_|context.def_readwrite(\"data\",&::n::Arr<char,6>::data)",
  ".Arr_char_6_|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<char,6>::size,pybind11::const_),\"\")",
  ".Arr_char_6_|context.def(pybind11::init<>(),\"\")",
  ".Arr_char_6_|context.def(pybind11::init<const::n::Arr<char,6>&>(),\"\",pybind11::arg(\"\"))",
  ".Hid_char_|context.def_readwrite(\"t\",&::h::Hid<char>::t)",
  ".Hid_char_|context.def(pybind11::init<>(),\"\")",
  ".Hid_char_|context.def(pybind11::init<const::h::Hid<char>&>(),\"\",pybind11::arg(\"\"))"
}, {
  {"a1", 0, {nullptr, "visible", "expose_here", "expose_as(Other)", "hidden", "expose_here, expose_as(Here)"}, {
    {false, {}, {}},
    {false, {}, {{0, "|class<::n::One<char>>(\"One_char_\")"}, {1, ".One_char_|enum<::n::One<char>::E>(\"E\")"}, {2, ".One_char_|class<::n::One<char>::In>(\"In\")"}, {11, "|context.attr(\"A1\")=::genpybind::getObjectForType<::n::One<char>>()"}, {12, ".One_char_|context.def(pybind11::init<const::n::One<char>&>(),\"\",pybind11::arg(\"\"))"}, {12, ".One_char_|context.def_readwrite(\"t\",&::n::One<char>::t)"}, {12, ".One_char_|context.def(\"f\",pybind11::overload_cast<char>(&::n::One<char>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {12, ".One_char_|context.def_readwrite_static(\"s\",&::n::One<char>::s)"}, {12, ".One_char_|context.def(pybind11::init<char>(),\"\",pybind11::arg(\"\"))"}, {17, ".One_char_.E|context.value(\"e\",::n::One<char>::E::e)"}, {17, ".One_char_.E|context.export_values()"}, {19, ".One_char_.In|context.def(pybind11::init<>(),\"\")"}, {19, ".One_char_.In|context.def(pybind11::init<const::n::One<char>::In&>(),\"\",pybind11::arg(\"\"))"}, {19, ".One_char_.In|context.def_readwrite(\"i\",&::n::One<char>::In::i)"}, {19, ".One_char_.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<char>::In::g),\"\")"}}},
    {false, {}, {{0, "|class<::n::One<char>>(\"A1\")"}, {1, ".A1|enum<::n::One<char>::E>(\"E\")"}, {2, ".A1|class<::n::One<char>::In>(\"In\")"}, {12, ".A1|context.def(pybind11::init<const::n::One<char>&>(),\"\",pybind11::arg(\"\"))"}, {12, ".A1|context.def_readwrite(\"t\",&::n::One<char>::t)"}, {12, ".A1|context.def(\"f\",pybind11::overload_cast<char>(&::n::One<char>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {12, ".A1|context.def_readwrite_static(\"s\",&::n::One<char>::s)"}, {12, ".A1|context.def(pybind11::init<char>(),\"\",pybind11::arg(\"\"))"}, {17, ".A1.E|context.value(\"e\",::n::One<char>::E::e)"}, {17, ".A1.E|context.export_values()"}, {19, ".A1.In|context.def(pybind11::init<>(),\"\")"}, {19, ".A1.In|context.def(pybind11::init<const::n::One<char>::In&>(),\"\",pybind11::arg(\"\"))"}, {19, ".A1.In|context.def_readwrite(\"i\",&::n::One<char>::In::i)"}, {19, ".A1.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<char>::In::g),\"\")"}}},
    {false, {}, {{0, "|class<::n::One<char>>(\"One_char_\")"}, {1, ".One_char_|enum<::n::One<char>::E>(\"E\")"}, {2, ".One_char_|class<::n::One<char>::In>(\"In\")"}, {11, "|context.attr(\"Other\")=::genpybind::getObjectForType<::n::One<char>>()"}, {12, ".One_char_|context.def(pybind11::init<const::n::One<char>&>(),\"\",pybind11::arg(\"\"))"}, {12, ".One_char_|context.def_readwrite(\"t\",&::n::One<char>::t)"}, {12, ".One_char_|context.def(\"f\",pybind11::overload_cast<char>(&::n::One<char>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {12, ".One_char_|context.def_readwrite_static(\"s\",&::n::One<char>::s)"}, {12, ".One_char_|context.def(pybind11::init<char>(),\"\",pybind11::arg(\"\"))"}, {17, ".One_char_.E|context.value(\"e\",::n::One<char>::E::e)"}, {17, ".One_char_.E|context.export_values()"}, {19, ".One_char_.In|context.def(pybind11::init<>(),\"\")"}, {19, ".One_char_.In|context.def(pybind11::init<const::n::One<char>::In&>(),\"\",pybind11::arg(\"\"))"}, {19, ".One_char_.In|context.def_readwrite(\"i\",&::n::One<char>::In::i)"}, {19, ".One_char_.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<char>::In::g),\"\")"}}},
    {false, {}, {{0, "|class<::n::One<char>>(\"One_char_\")"}, {1, ".One_char_|enum<::n::One<char>::E>(\"E\")"}, {2, ".One_char_|class<::n::One<char>::In>(\"In\")"}, {12, ".One_char_|context.def(pybind11::init<const::n::One<char>&>(),\"\",pybind11::arg(\"\"))"}, {12, ".One_char_|context.def_readwrite(\"t\",&::n::One<char>::t)"}, {12, ".One_char_|context.def(\"f\",pybind11::overload_cast<char>(&::n::One<char>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {12, ".One_char_|context.def_readwrite_static(\"s\",&::n::One<char>::s)"}, {12, ".One_char_|context.def(pybind11::init<char>(),\"\",pybind11::arg(\"\"))"}, {17, ".One_char_.E|context.value(\"e\",::n::One<char>::E::e)"}, {17, ".One_char_.E|context.export_values()"}, {19, ".One_char_.In|context.def(pybind11::init<>(),\"\")"}, {19, ".One_char_.In|context.def(pybind11::init<const::n::One<char>::In&>(),\"\",pybind11::arg(\"\"))"}, {19, ".One_char_.In|context.def_readwrite(\"i\",&::n::One<char>::In::i)"}, {19, ".One_char_.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<char>::In::g),\"\")"}}},
    {false, {}, {{0, "|class<::n::One<char>>(\"Here\")"}, {1, ".Here|enum<::n::One<char>::E>(\"E\")"}, {2, ".Here|class<::n::One<char>::In>(\"In\")"}, {12, ".Here|context.def(pybind11::init<const::n::One<char>&>(),\"\",pybind11::arg(\"\"))"}, {12, ".Here|context.def_readwrite(\"t\",&::n::One<char>::t)"}, {12, ".Here|context.def(\"f\",pybind11::overload_cast<char>(&::n::One<char>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {12, ".Here|context.def_readwrite_static(\"s\",&::n::One<char>::s)"}, {12, ".Here|context.def(pybind11::init<char>(),\"\",pybind11::arg(\"\"))"}, {17, ".Here.E|context.value(\"e\",::n::One<char>::E::e)"}, {17, ".Here.E|context.export_values()"}, {19, ".Here.In|context.def(pybind11::init<>(),\"\")"}, {19, ".Here.In|context.def(pybind11::init<const::n::One<char>::In&>(),\"\",pybind11::arg(\"\"))"}, {19, ".Here.In|context.def_readwrite(\"i\",&::n::One<char>::In::i)"}, {19, ".Here.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<char>::In::g),\"\")"}}}}},
  {"a4", 0, {nullptr, "visible", "expose_here", "expose_as(Four)"}, {
    {false, {}, {}},
    {false, {}, {{3, "|class<::n::Arr<int,3>>(\"Arr_int_3_\")"}, {11, "|context.attr(\"A4\")=::genpybind::getObjectForType<::n::Arr<int,3>>()"}, {23, ".Arr_int_3_|context.def(pybind11::init<>(),\"\")"}, {23, ".Arr_int_3_|context.def(pybind11::init<const::n::Arr<int,3>&>(),\"\",pybind11::arg(\"\"))"}, {23, ".Arr_int_3_|context.def_readwrite(\"data\",&::n::Arr<int,3>::data)"}, {23, ".Arr_int_3_|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<int,3>::size,pybind11::const_),\"\")"}}},
    {false, {}, {{3, "|class<::n::Arr<int,3>>(\"A4\")"}, {23, ".A4|context.def(pybind11::init<>(),\"\")"}, {23, ".A4|context.def(pybind11::init<const::n::Arr<int,3>&>(),\"\",pybind11::arg(\"\"))"}, {23, ".A4|context.def_readwrite(\"data\",&::n::Arr<int,3>::data)"}, {23, ".A4|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<int,3>::size,pybind11::const_),\"\")"}}},
    {false, {}, {{3, "|class<::n::Arr<int,3>>(\"Arr_int_3_\")"}, {11, "|context.attr(\"Four\")=::genpybind::getObjectForType<::n::Arr<int,3>>()"}, {23, ".Arr_int_3_|context.def(pybind11::init<>(),\"\")"}, {23, ".Arr_int_3_|context.def(pybind11::init<const::n::Arr<int,3>&>(),\"\",pybind11::arg(\"\"))"}, {23, ".Arr_int_3_|context.def_readwrite(\"data\",&::n::Arr<int,3>::data)"}, {23, ".Arr_int_3_|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<int,3>::size,pybind11::const_),\"\")"}}}}},
  {"a6", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{3, "|class<::n::TT<n::One>>(\"TT_n_One_\")"}, {11, "|context.attr(\"A6\")=::genpybind::getObjectForType<::n::TT<n::One>>()"}, {23, ".TT_n_One_|context.def(pybind11::init<const::n::TT<n::One>&>(),\"\",pybind11::arg(\"\"))"}, {23, ".TT_n_One_|context.def_readwrite(\"c\",&::n::TT<n::One>::c)"}}}}},
  {"a7", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{3, "|class<::n::Spec<double>>(\"Spec_double_\")"}, {11, "|context.attr(\"A7\")=::genpybind::getObjectForType<::n::Spec<double>>()"}, {23, ".Spec_double_|context.def(pybind11::init<>(),\"\")"}, {23, ".Spec_double_|context.def(pybind11::init<const::n::Spec<double>&>(),\"\",pybind11::arg(\"\"))"}, {23, ".Spec_double_|context.def_readwrite(\"primary\",&::n::Spec<double>::primary)"}}}}},
  {"a8", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{11, "|context.attr(\"A8\")=::genpybind::getObjectForType<::n::Spec<int>>()"}}}}},
  {"a9", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{3, "|class<::n::Spec<int*>>(\"A9\")"}, {23, ".A9|context.def(pybind11::init<>(),\"\")"}, {23, ".A9|context.def(pybind11::init<const::n::Spec<int*>&>(),\"\",pybind11::arg(\"\"))"}, {23, ".A9|context.def_readwrite(\"partial\",&::n::Spec<int*>::partial)"}}}}},
  {"a10", 0, {nullptr, "visible", "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{5, ".Nested_char_|class<::n::Nested<char>::Inner<int>>(\"Inner_int_\")"}, {11, "|context.attr(\"A10\")=::genpybind::getObjectForType<::n::Nested<char>::Inner<int>>()"}, {28, ".Nested_char_.Inner_int_|context.def(pybind11::init<>(),\"\")"}, {28, ".Nested_char_.Inner_int_|context.def(pybind11::init<const::n::Nested<char>::Inner<int>&>(),\"\",pybind11::arg(\"\"))"}, {28, ".Nested_char_.Inner_int_|context.def_readwrite(\"t\",&::n::Nested<char>::Inner<int>::t)"}, {28, ".Nested_char_.Inner_int_|context.def_readwrite(\"u\",&::n::Nested<char>::Inner<int>::u)"}, {28, ".Nested_char_.Inner_int_|context.def(\"m\",pybind11::overload_cast<>(&::n::Nested<char>::Inner<int>::m),\"\")"}}},
    {false, {}, {{5, "|class<::n::Nested<char>::Inner<int>>(\"A10\")"}, {28, ".A10|context.def(pybind11::init<>(),\"\")"}, {28, ".A10|context.def(pybind11::init<const::n::Nested<char>::Inner<int>&>(),\"\",pybind11::arg(\"\"))"}, {28, ".A10|context.def_readwrite(\"t\",&::n::Nested<char>::Inner<int>::t)"}, {28, ".A10|context.def_readwrite(\"u\",&::n::Nested<char>::Inner<int>::u)"}, {28, ".A10|context.def(\"m\",pybind11::overload_cast<>(&::n::Nested<char>::Inner<int>::m),\"\")"}}}}},
  {"a11", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{5, "|class<::n::Self<bool>>(\"Self_bool_\")"}, {11, "|context.attr(\"A11\")=::genpybind::getObjectForType<::n::Self<bool>>()"}, {28, ".Self_bool_|context.def_readwrite(\"next\",&::n::Self<bool>::next)"}, {28, ".Self_bool_|context.def_readwrite(\"ptr\",&::n::Self<bool>::ptr)"}, {28, ".Self_bool_|context.def(pybind11::init<const::n::Self<bool>&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"a12", 0, {nullptr, "visible", "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{0, "|class<::n::One<unsignedint>>(\"One_unsigned_int_\")"}, {1, ".One_unsigned_int_|enum<::n::One<unsignedint>::E>(\"E\")"}, {2, ".One_unsigned_int_|class<::n::One<unsignedint>::In>(\"In\")"}, {11, "|context.attr(\"A12\")=::genpybind::getObjectForType<::n::One<unsignedint>>()"}, {12, ".One_unsigned_int_|context.def(pybind11::init<const::n::One<unsignedint>&>(),\"\",pybind11::arg(\"\"))"}, {12, ".One_unsigned_int_|context.def_readwrite(\"t\",&::n::One<unsignedint>::t)"}, {12, ".One_unsigned_int_|context.def(\"f\",pybind11::overload_cast<unsignedint>(&::n::One<unsignedint>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {12, ".One_unsigned_int_|context.def_readwrite_static(\"s\",&::n::One<unsignedint>::s)"}, {12, ".One_unsigned_int_|context.def(pybind11::init<unsignedint>(),\"\",pybind11::arg(\"\"))"}, {17, ".One_unsigned_int_.E|context.value(\"e\",::n::One<unsignedint>::E::e)"}, {17, ".One_unsigned_int_.E|context.export_values()"}, {19, ".One_unsigned_int_.In|context.def(pybind11::init<>(),\"\")"}, {19, ".One_unsigned_int_.In|context.def(pybind11::init<const::n::One<unsignedint>::In&>(),\"\",pybind11::arg(\"\"))"}, {19, ".One_unsigned_int_.In|context.def_readwrite(\"i\",&::n::One<unsignedint>::In::i)"}, {19, ".One_unsigned_int_.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<unsignedint>::In::g),\"\")"}}},
    {false, {}, {{0, "|class<::n::One<unsignedint>>(\"A12\")"}, {1, ".A12|enum<::n::One<unsignedint>::E>(\"E\")"}, {2, ".A12|class<::n::One<unsignedint>::In>(\"In\")"}, {12, ".A12|context.def(pybind11::init<const::n::One<unsignedint>&>(),\"\",pybind11::arg(\"\"))"}, {12, ".A12|context.def_readwrite(\"t\",&::n::One<unsignedint>::t)"}, {12, ".A12|context.def(\"f\",pybind11::overload_cast<unsignedint>(&::n::One<unsignedint>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {12, ".A12|context.def_readwrite_static(\"s\",&::n::One<unsignedint>::s)"}, {12, ".A12|context.def(pybind11::init<unsignedint>(),\"\",pybind11::arg(\"\"))"}, {17, ".A12.E|context.value(\"e\",::n::One<unsignedint>::E::e)"}, {17, ".A12.E|context.export_values()"}, {19, ".A12.In|context.def(pybind11::init<>(),\"\")"}, {19, ".A12.In|context.def(pybind11::init<const::n::One<unsignedint>::In&>(),\"\",pybind11::arg(\"\"))"}, {19, ".A12.In|context.def_readwrite(\"i\",&::n::One<unsignedint>::In::i)"}, {19, ".A12.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<unsignedint>::In::g),\"\")"}}}}},
  {"a14", 0, {nullptr, "visible", "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{0, "|class<::n::One<unsignedchar>>(\"One_unsigned_char_\")"}, {1, ".One_unsigned_char_|enum<::n::One<unsignedchar>::E>(\"E\")"}, {2, ".One_unsigned_char_|class<::n::One<unsignedchar>::In>(\"In\")"}, {11, "|context.attr(\"A14\")=::genpybind::getObjectForType<::n::One<unsignedchar>>()"}, {12, ".One_unsigned_char_|context.def(pybind11::init<const::n::One<unsignedchar>&>(),\"\",pybind11::arg(\"\"))"}, {12, ".One_unsigned_char_|context.def_readwrite(\"t\",&::n::One<unsignedchar>::t)"}, {12, ".One_unsigned_char_|context.def(\"f\",pybind11::overload_cast<unsignedchar>(&::n::One<unsignedchar>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {12, ".One_unsigned_char_|context.def_readwrite_static(\"s\",&::n::One<unsignedchar>::s)"}, {12, ".One_unsigned_char_|context.def(pybind11::init<unsignedchar>(),\"\",pybind11::arg(\"\"))"}, {17, ".One_unsigned_char_.E|context.value(\"e\",::n::One<unsignedchar>::E::e)"}, {17, ".One_unsigned_char_.E|context.export_values()"}, {19, ".One_unsigned_char_.In|context.def(pybind11::init<>(),\"\")"}, {19, ".One_unsigned_char_.In|context.def(pybind11::init<const::n::One<unsignedchar>::In&>(),\"\",pybind11::arg(\"\"))"}, {19, ".One_unsigned_char_.In|context.def_readwrite(\"i\",&::n::One<unsignedchar>::In::i)"}, {19, ".One_unsigned_char_.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<unsignedchar>::In::g),\"\")"}}},
    {false, {}, {{0, "|class<::n::One<unsignedchar>>(\"A14\")"}, {1, ".A14|enum<::n::One<unsignedchar>::E>(\"E\")"}, {2, ".A14|class<::n::One<unsignedchar>::In>(\"In\")"}, {12, ".A14|context.def(pybind11::init<const::n::One<unsignedchar>&>(),\"\",pybind11::arg(\"\"))"}, {12, ".A14|context.def_readwrite(\"t\",&::n::One<unsignedchar>::t)"}, {12, ".A14|context.def(\"f\",pybind11::overload_cast<unsignedchar>(&::n::One<unsignedchar>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {12, ".A14|context.def_readwrite_static(\"s\",&::n::One<unsignedchar>::s)"}, {12, ".A14|context.def(pybind11::init<unsignedchar>(),\"\",pybind11::arg(\"\"))"}, {17, ".A14.E|context.value(\"e\",::n::One<unsignedchar>::E::e)"}, {17, ".A14.E|context.export_values()"}, {19, ".A14.In|context.def(pybind11::init<>(),\"\")"}, {19, ".A14.In|context.def(pybind11::init<const::n::One<unsignedchar>::In&>(),\"\",pybind11::arg(\"\"))"}, {19, ".A14.In|context.def_readwrite(\"i\",&::n::One<unsignedchar>::In::i)"}, {19, ".A14.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<unsignedchar>::In::g),\"\")"}}}}},
  {"a16", 0, {nullptr, "visible", "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{12, "|context.attr(\"A16\")=::genpybind::getObjectForType<::n::One<int>>()"}}},
    {false, {0, 1, 2, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22}, {{0, "|class<::n::One<int>>(\"A16\")"}, {0, ".A16|enum<::n::One<int>::E>(\"E\")"}, {0, ".A16|class<::n::One<int>::In>(\"In\")"}, {12, ".A16|context.def(pybind11::init<const::n::One<int>&>(),\"\",pybind11::arg(\"\"))"}, {12, ".A16|context.def_readwrite(\"t\",&::n::One<int>::t)"}, {12, ".A16|context.def(\"f\",pybind11::overload_cast<int>(&::n::One<int>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {12, ".A16|context.def_readwrite_static(\"s\",&::n::One<int>::s)"}, {12, ".A16|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))"}, {12, ".A16.E|context.value(\"e\",::n::One<int>::E::e)"}, {12, ".A16.E|context.export_values()"}, {12, ".A16.In|context.def(pybind11::init<>(),\"\")"}, {12, ".A16.In|context.def(pybind11::init<const::n::One<int>::In&>(),\"\",pybind11::arg(\"\"))"}, {12, ".A16.In|context.def_readwrite(\"i\",&::n::One<int>::In::i)"}, {12, ".A16.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<int>::In::g),\"\")"}}}}},
  {"hold", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {5, 28, 29}, {}}}},
  {"a17", 0, {nullptr, "visible", "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{1, "|class<::n::One<signedchar>>(\"One_signed_char_\")"}, {2, ".One_signed_char_|enum<::n::One<signedchar>::E>(\"E\")"}, {3, ".One_signed_char_|class<::n::One<signedchar>::In>(\"In\")"}, {17, ".One_signed_char_|context.def(pybind11::init<const::n::One<signedchar>&>(),\"\",pybind11::arg(\"\"))"}, {17, ".One_signed_char_|context.def_readwrite(\"t\",&::n::One<signedchar>::t)"}, {17, ".One_signed_char_|context.def(\"f\",pybind11::overload_cast<signedchar>(&::n::One<signedchar>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {17, ".One_signed_char_|context.def_readwrite_static(\"s\",&::n::One<signedchar>::s)"}, {17, ".One_signed_char_|context.def(pybind11::init<signedchar>(),\"\",pybind11::arg(\"\"))"}, {19, ".One_signed_char_.E|context.value(\"e\",::n::One<signedchar>::E::e)"}, {19, ".One_signed_char_.E|context.export_values()"}, {23, ".One_signed_char_.In|context.def(pybind11::init<>(),\"\")"}, {23, ".One_signed_char_.In|context.def(pybind11::init<const::n::One<signedchar>::In&>(),\"\",pybind11::arg(\"\"))"}, {23, ".One_signed_char_.In|context.def_readwrite(\"i\",&::n::One<signedchar>::In::i)"}, {23, ".One_signed_char_.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<signedchar>::In::g),\"\")"}, {30, ".Hold|context.attr(\"A17\")=::genpybind::getObjectForType<::n::One<signedchar>>()"}}},
    {false, {}, {{6, ".Hold|class<::n::One<signedchar>>(\"A17\")"}, {6, ".Hold.A17|enum<::n::One<signedchar>::E>(\"E\")"}, {6, ".Hold.A17|class<::n::One<signedchar>::In>(\"In\")"}, {30, ".Hold.A17|context.def(pybind11::init<const::n::One<signedchar>&>(),\"\",pybind11::arg(\"\"))"}, {30, ".Hold.A17|context.def_readwrite(\"t\",&::n::One<signedchar>::t)"}, {30, ".Hold.A17|context.def(\"f\",pybind11::overload_cast<signedchar>(&::n::One<signedchar>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {30, ".Hold.A17|context.def_readwrite_static(\"s\",&::n::One<signedchar>::s)"}, {30, ".Hold.A17|context.def(pybind11::init<signedchar>(),\"\",pybind11::arg(\"\"))"}, {30, ".Hold.A17.E|context.value(\"e\",::n::One<signedchar>::E::e)"}, {30, ".Hold.A17.E|context.export_values()"}, {30, ".Hold.A17.In|context.def(pybind11::init<>(),\"\")"}, {30, ".Hold.A17.In|context.def(pybind11::init<const::n::One<signedchar>::In&>(),\"\",pybind11::arg(\"\"))"}, {30, ".Hold.A17.In|context.def_readwrite(\"i\",&::n::One<signedchar>::In::i)"}, {30, ".Hold.A17.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<signedchar>::In::g),\"\")"}}}}},
  {"a18", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {true, {}, {}}}},
  {"a19", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{1, "|class<::n::One<wchar_t>>(\"One_wchar_t_\")"}, {2, ".One_wchar_t_|enum<::n::One<wchar_t>::E>(\"E\")"}, {3, ".One_wchar_t_|class<::n::One<wchar_t>::In>(\"In\")"}, {5, "|class<::n::WithAlias<wchar_t>>(\"WithAlias_wchar_t_\")"}, {12, "|context.attr(\"A19\")=::genpybind::getObjectForType<::n::WithAlias<wchar_t>>()"}, {17, ".One_wchar_t_|context.def(pybind11::init<const::n::One<wchar_t>&>(),\"\",pybind11::arg(\"\"))"}, {17, ".One_wchar_t_|context.def_readwrite(\"t\",&::n::One<wchar_t>::t)"}, {17, ".One_wchar_t_|context.def(\"f\",pybind11::overload_cast<wchar_t>(&::n::One<wchar_t>::f,pybind11::const_),\"\",pybind11::arg(\"x\"))"}, {17, ".One_wchar_t_|context.def_readwrite_static(\"s\",&::n::One<wchar_t>::s)"}, {17, ".One_wchar_t_|context.def(pybind11::init<wchar_t>(),\"\",pybind11::arg(\"\"))"}, {19, ".One_wchar_t_.E|context.value(\"e\",::n::One<wchar_t>::E::e)"}, {19, ".One_wchar_t_.E|context.export_values()"}, {23, ".One_wchar_t_.In|context.def(pybind11::init<>(),\"\")"}, {23, ".One_wchar_t_.In|context.def(pybind11::init<const::n::One<wchar_t>::In&>(),\"\",pybind11::arg(\"\"))"}, {23, ".One_wchar_t_.In|context.def_readwrite(\"i\",&::n::One<wchar_t>::In::i)"}, {23, ".One_wchar_t_.In|context.def(\"g\",pybind11::overload_cast<>(&::n::One<wchar_t>::In::g),\"\")"}, {28, ".WithAlias_wchar_t_|context.def(pybind11::init<>(),\"\")"}, {28, ".WithAlias_wchar_t_|context.def(pybind11::init<const::n::WithAlias<wchar_t>&>(),\"\",pybind11::arg(\"\"))"}, {28, ".WithAlias_wchar_t_|context.attr(\"Al\")=::genpybind::getObjectForType<::n::One<wchar_t>>()"}, {28, ".WithAlias_wchar_t_|context.def_readwrite(\"w\",&::n::WithAlias<wchar_t>::w)"}}}}},
  {"e1", 0, {"visible", "hidden", "expose_as(Exp)"}, {
    {false, {}, {}},
    {false, {6, 30, 31, 32, 33}, {}},
    {false, {6, 30, 31, 32, 33}, {{6, "|class<::n::Arr<char,2>>(\"Exp\")"}, {30, ".Exp|context.def_readwrite(\"data\",&::n::Arr<char,2>::data)"}, {30, ".Exp|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<char,2>::size,pybind11::const_),\"\")"}, {30, ".Exp|context.def(pybind11::init<>(),\"\")"}, {30, ".Exp|context.def(pybind11::init<const::n::Arr<char,2>&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"e2", 0, {"visible", "hidden", "expose_as(Exp2)"}, {
    {false, {}, {}},
    {false, {7, 34, 35, 36, 37}, {}},
    {false, {7, 34, 35, 36, 37}, {{7, "|class<::n::Arr<char,4>>(\"Exp2\")"}, {34, ".Exp2|context.def_readwrite(\"data\",&::n::Arr<char,4>::data)"}, {34, ".Exp2|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<char,4>::size,pybind11::const_),\"\")"}, {34, ".Exp2|context.def(pybind11::init<>(),\"\")"}, {34, ".Exp2|context.def(pybind11::init<const::n::Arr<char,4>&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"b1", 0, {nullptr, "visible", "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{3, "|class<::n::Arr<long,7>>(\"Arr_long_7_\")"}, {23, ".Arr_long_7_|context.def(pybind11::init<>(),\"\")"}, {23, ".Arr_long_7_|context.def(pybind11::init<const::n::Arr<long,7>&>(),\"\",pybind11::arg(\"\"))"}, {23, ".Arr_long_7_|context.def_readwrite(\"data\",&::n::Arr<long,7>::data)"}, {23, ".Arr_long_7_|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<long,7>::size,pybind11::const_),\"\")"}, {46, "|context.attr(\"B1\")=::genpybind::getObjectForType<::n::Arr<long,7>>()"}}},
    {false, {}, {{10, "|class<::n::Arr<long,7>>(\"B1\")"}, {46, ".B1|context.def(pybind11::init<>(),\"\")"}, {46, ".B1|context.def(pybind11::init<const::n::Arr<long,7>&>(),\"\",pybind11::arg(\"\"))"}, {46, ".B1|context.def_readwrite(\"data\",&::n::Arr<long,7>::data)"}, {46, ".B1|context.def(\"size\",pybind11::overload_cast<>(&::n::Arr<long,7>::size,pybind11::const_),\"\")"}}}}},
  {"b2", 0, {nullptr, "visible", "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{46, "|context.attr(\"B2\")=::genpybind::getObjectForType<::h::Hid<int>>()"}}},
    {false, {}, {{10, "|class<::h::Hid<int>>(\"B2\")"}, {46, ".B2|context.def(pybind11::init<>(),\"\")"}, {46, ".B2|context.def(pybind11::init<const::h::Hid<int>&>(),\"\",pybind11::arg(\"\"))"}, {46, ".B2|context.def_readwrite(\"t\",&::h::Hid<int>::t)"}}}}},
  {"b3", 0, {"visible", "hidden"}, {
    {false, {}, {}},
    {false, {10, 46, 47, 48}, {}}}},
}};
RegE R0({"C29.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
