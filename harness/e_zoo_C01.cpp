// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) GENPYBIND(__sel_ns) {
struct GENPYBIND(__sel_a1) GENPYBIND(__sel_a2) GENPYBIND(__sel_a3) S1 {
  void m(int a, int b) GENPYBIND(__sel_m1) GENPYBIND(__sel_m2);
  int f GENPYBIND(__sel_f1) GENPYBIND(__sel_f2);
};
struct GENPYBIND(__sel_r1) S2;
struct GENPYBIND(__sel_r2) S2 {};
void g(int x) GENPYBIND(__sel_g1) GENPYBIND(__sel_g2);
void g(int x) GENPYBIND(__sel_g4);
enum GENPYBIND(__sel_e1) GENPYBIND(__sel_e2) E { e GENPYBIND(__sel_v1) GENPYBIND(__sel_v2) };
extern int v GENPYBIND(__sel_x1) GENPYBIND(__sel_x2);
struct __attribute__((annotate("other tool"))) S3 {};
struct __attribute__((annotate("hidden"))) GENPYBIND(__sel_o1) S4 { void k() __attribute__((annotate("expose_as(kk)"))); };
}
namespace h {
#define OTHER(x) __attribute__((annotate(x)))
void f1() OTHER("other"); void f2() OTHER("visible"); extern int v1 OTHER("other"); using I5 OTHER("other") = int;
struct OTHER("visible") S5 { int x OTHER("expose_as(y)"); void k() OTHER("visible"); struct OTHER("other") S {}; };
enum OTHER("other") E5 { e5 OTHER("visible") };
template <typename T> struct T5 { typename T::type fail(); }; using A5 OTHER("other") = T5<int>;
struct GENPYBIND() S6 {}; void f6() GENPYBIND(); void f7() GENPYBIND(  ); enum GENPYBIND() E6 { e6 };
struct OTHER("hidden") GENPYBIND(__sel_s7) S7 { void k() OTHER("hidden"); int x OTHER("bogus(") GENPYBIND(__sel_s7x); };
namespace j OTHER("visible") { void f8() OTHER("x") GENPYBIND(__sel_f8); void f10(); }
}
namespace h OTHER("module(x)") { struct GENPYBIND(visible) S9 {}; }
)zoo";
const Zoo Z0{{
  "|class<::n::S1>(\"S1\",pybind11::dynamic_attr())",
  "|class<::n::S2>(\"P1\")",
  "|enum<::n::E>(\"E\",pybind11::arithmetic())",
  "|class<::n::S3>(\"S3\")",
  "|class<::n::S4>(\"S4\")",
  "|class<::h::S7>(\"S7\")",
  "|class<::h::S9>(\"S9\")",
  "|context.def(\"g\",pybind11::overload_cast<int>(&::n::g),\"\",pybind11::arg(\"x\").noconvert())",
  "|context.attr(\"v\")=::n::v",
  ".S1|context.def(pybind11::init<>(),\"\")",
  ".S1|context.def(pybind11::init<const::n::S1&>(),\"\",pybind11::arg(\"\"))",
  ".S1|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\"))",
  ".S1|context.def_readonly(\"f\",&::n::S1::f)",
  ".P1|context.def(pybind11::init<>(),\"\")",
  ".P1|context.def(pybind11::init<const::n::S2&>(),\"\",pybind11::arg(\"\"))",
  ".E|context.value(\"e\",::n::E::e)",
  ".E|context.export_values()",
  ".S3|context.def(pybind11::init<>(),\"\")",
  ".S3|context.def(pybind11::init<const::n::S3&>(),\"\",pybind11::arg(\"\"))",
  ".S4|context.def(pybind11::init<>(),\"\")",
  ".S4|context.def(pybind11::init<const::n::S4&>(),\"\",pybind11::arg(\"\"))",
  ".S4|context.def(\"k\",pybind11::overload_cast<>(&::n::S4::k),\"\")",
  ".S7|context.def(pybind11::init<>(),\"\")",
  ".S7|context.def(pybind11::init<const::h::S7&>(),\"\",pybind11::arg(\"\"))",
  ".S7|context.def(\"k\",pybind11::overload_cast<>(&::h::S7::k),\"\")",
  ".S7|context.def_readwrite(\"x\",&::h::S7::x)",
  "|context.def(\"f8\",pybind11::overload_cast<>(&::h::j::f8),\"\")",
  ".S9|context.def(pybind11::init<>(),\"\")",
  ".S9|context.def(pybind11::init<const::h::S9&>(),\"\",pybind11::arg(\"\"))"
}, {
  {"ns", 0, {nullptr, "visible", "module(sub)", "only_expose_in(example)", "only_expose_in(other)"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21}, {{0, "|submodule<>(\"sub\")"}, {0, ".sub|class<::n::S1>(\"S1\",pybind11::dynamic_attr())"}, {0, ".sub|class<::n::S2>(\"P1\")"}, {0, ".sub|enum<::n::E>(\"E\",pybind11::arithmetic())"}, {0, ".sub|class<::n::S3>(\"S3\")"}, {0, ".sub|class<::n::S4>(\"S4\")"}, {7, ".sub|context.def(\"g\",pybind11::overload_cast<int>(&::n::g),\"\",pybind11::arg(\"x\").noconvert())"}, {7, ".sub|context.attr(\"v\")=::n::v"}, {7, ".sub.S1|context.def(pybind11::init<>(),\"\")"}, {7, ".sub.S1|context.def(pybind11::init<const::n::S1&>(),\"\",pybind11::arg(\"\"))"}, {7, ".sub.S1|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\"))"}, {7, ".sub.S1|context.def_readonly(\"f\",&::n::S1::f)"}, {7, ".sub.P1|context.def(pybind11::init<>(),\"\")"}, {7, ".sub.P1|context.def(pybind11::init<const::n::S2&>(),\"\",pybind11::arg(\"\"))"}, {7, ".sub.E|context.value(\"e\",::n::E::e)"}, {7, ".sub.E|context.export_values()"}, {7, ".sub.S3|context.def(pybind11::init<>(),\"\")"}, {7, ".sub.S3|context.def(pybind11::init<const::n::S3&>(),\"\",pybind11::arg(\"\"))"}, {7, ".sub.S4|context.def(pybind11::init<>(),\"\")"}, {7, ".sub.S4|context.def(pybind11::init<const::n::S4&>(),\"\",pybind11::arg(\"\"))"}, {7, ".sub.S4|context.def(\"k\",pybind11::overload_cast<>(&::n::S4::k),\"\")"}}},
    {false, {}, {}},
    {false, {0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21}, {}}}},
  {"a1", 0, {"dynamic_attr", nullptr, "expose_as(P)", "hidden", "visible", "expose_as ( P )", "expose_as(P),", "expose_as(\"P\")", "hidden, visible", ","}, {
    {false, {}, {}},
    {false, {0}, {{0, "|class<::n::S1>(\"S1\")"}}},
    {false, {0, 9, 10, 11, 12}, {{0, "|class<::n::S1>(\"P\")"}, {9, ".P|context.def(pybind11::init<>(),\"\")"}, {9, ".P|context.def(pybind11::init<const::n::S1&>(),\"\",pybind11::arg(\"\"))"}, {9, ".P|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\"))"}, {9, ".P|context.def_readonly(\"f\",&::n::S1::f)"}}},
    {false, {0, 9, 10, 11, 12}, {}},
    {false, {0}, {{0, "|class<::n::S1>(\"S1\")"}}},
    {false, {0, 9, 10, 11, 12}, {{0, "|class<::n::S1>(\"P\")"}, {9, ".P|context.def(pybind11::init<>(),\"\")"}, {9, ".P|context.def(pybind11::init<const::n::S1&>(),\"\",pybind11::arg(\"\"))"}, {9, ".P|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\"))"}, {9, ".P|context.def_readonly(\"f\",&::n::S1::f)"}}},
    {false, {0, 9, 10, 11, 12}, {{0, "|class<::n::S1>(\"P\")"}, {9, ".P|context.def(pybind11::init<>(),\"\")"}, {9, ".P|context.def(pybind11::init<const::n::S1&>(),\"\",pybind11::arg(\"\"))"}, {9, ".P|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\"))"}, {9, ".P|context.def_readonly(\"f\",&::n::S1::f)"}}},
    {false, {0, 9, 10, 11, 12}, {{0, "|class<::n::S1>(\"P\")"}, {9, ".P|context.def(pybind11::init<>(),\"\")"}, {9, ".P|context.def(pybind11::init<const::n::S1&>(),\"\",pybind11::arg(\"\"))"}, {9, ".P|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\"))"}, {9, ".P|context.def_readonly(\"f\",&::n::S1::f)"}}},
    {false, {0}, {{0, "|class<::n::S1>(\"S1\")"}}},
    {true, {}, {}}}},
  {"a2", 0, {nullptr, "expose_as(Q)", "hidden", "holder_type(\"H<n::S1>\")"}, {
    {false, {}, {}},
    {false, {0, 9, 10, 11, 12}, {{0, "|class<::n::S1>(\"Q\",pybind11::dynamic_attr())"}, {9, ".Q|context.def(pybind11::init<>(),\"\")"}, {9, ".Q|context.def(pybind11::init<const::n::S1&>(),\"\",pybind11::arg(\"\"))"}, {9, ".Q|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\"))"}, {9, ".Q|context.def_readonly(\"f\",&::n::S1::f)"}}},
    {false, {0, 9, 10, 11, 12}, {}},
    {false, {0}, {{0, "|class<::n::S1,H<n::S1>>(\"S1\",pybind11::dynamic_attr())"}}}}},
  {"a3", 0, {nullptr, "dynamic_attr(false)"}, {
    {false, {}, {}},
    {false, {0}, {{0, "|class<::n::S1>(\"S1\")"}}}}},
  {"m1", 0, {"noconvert(a)", nullptr, "keep_alive(this, b)", "noconvert( a , b )", "required(a,b,)"}, {
    {false, {}, {}},
    {false, {11}, {{11, ".S1|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"))"}}},
    {false, {11}, {{11, ".S1|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::keep_alive<1,3>())"}}},
    {false, {11}, {{11, ".S1|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\").noconvert())"}}},
    {false, {11}, {{11, ".S1|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").none(false),pybind11::arg(\"b\").none(false))"}}}}},
  {"m2", 0, {nullptr, "noconvert(b)", "keep_alive(a, b)", "expose_as(mm)"}, {
    {false, {}, {}},
    {false, {11}, {{11, ".S1|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\").noconvert())"}}},
    {false, {11}, {{11, ".S1|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\"),pybind11::keep_alive<2,3>())"}}},
    {false, {11}, {{11, ".S1|context.def(\"mm\",pybind11::overload_cast<int,int>(&::n::S1::m),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\"))"}}}}},
  {"f1", 0, {"readonly", nullptr, "readonly()", "readonly(true)"}, {
    {false, {}, {}},
    {false, {12}, {{12, ".S1|context.def_readwrite(\"f\",&::n::S1::f)"}}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"f2", 0, {nullptr, "expose_as(ff)", "hidden"}, {
    {false, {}, {}},
    {false, {12}, {{12, ".S1|context.def_readonly(\"ff\",&::n::S1::f)"}}},
    {false, {12}, {}}}},
  {"r1", 0, {"expose_as(P1)", nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {1, 13, 14}, {{1, "|class<::n::S2>(\"S2\")"}, {13, ".S2|context.def(pybind11::init<>(),\"\")"}, {13, ".S2|context.def(pybind11::init<const::n::S2&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {1, 13, 14}, {}}}},
  {"r2", 0, {nullptr, "expose_as(P2)", "dynamic_attr"}, {
    {false, {}, {}},
    {false, {1, 13, 14}, {{1, "|class<::n::S2>(\"P2\")"}, {13, ".P2|context.def(pybind11::init<>(),\"\")"}, {13, ".P2|context.def(pybind11::init<const::n::S2&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {1}, {{1, "|class<::n::S2>(\"P1\",pybind11::dynamic_attr())"}}}}},
  {"g1", 0, {"noconvert(x)", nullptr, "hidden", "expose_as(gg)"}, {
    {false, {}, {}},
    {false, {7}, {{7, "|context.def(\"g\",pybind11::overload_cast<int>(&::n::g),\"\",pybind11::arg(\"x\"))"}}},
    {false, {7}, {}},
    {false, {7}, {{7, "|context.def(\"gg\",pybind11::overload_cast<int>(&::n::g),\"\",pybind11::arg(\"x\"))"}}}}},
  {"g2", 0, {nullptr, "expose_as(g3)"}, {
    {false, {}, {}},
    {false, {7}, {{7, "|context.def(\"g3\",pybind11::overload_cast<int>(&::n::g),\"\",pybind11::arg(\"x\").noconvert())"}}}}},
  {"g4", 0, {nullptr, "required(x)", "return_value_policy(copy)"}, {
    {false, {}, {}},
    {false, {7}, {{7, "|context.def(\"g\",pybind11::overload_cast<int>(&::n::g),\"\",pybind11::arg(\"x\").noconvert().none(false))"}}},
    {false, {7}, {{7, "|context.def(\"g\",pybind11::overload_cast<int>(&::n::g),\"\",pybind11::arg(\"x\").noconvert(),pybind11::return_value_policy::copy)"}}}}},
  {"e1", 0, {"arithmetic", nullptr}, {
    {false, {}, {}},
    {false, {2}, {{2, "|enum<::n::E>(\"E\")"}}}}},
  {"e2", 0, {nullptr, "export_values(false)", "expose_as(EE)"}, {
    {false, {}, {}},
    {false, {16}, {}},
    {false, {2, 15, 16}, {{2, "|enum<::n::E>(\"EE\",pybind11::arithmetic())"}, {15, ".EE|context.value(\"e\",::n::E::e)"}, {15, ".EE|context.export_values()"}}}}},
  {"v1", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {15}, {}}}},
  {"v2", 0, {nullptr, "expose_as(e0)"}, {
    {false, {}, {}},
    {false, {15}, {{15, ".E|context.value(\"e0\",::n::E::e)"}}}}},
  {"x1", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {8}, {}}}},
  {"x2", 0, {nullptr, "expose_as(w)"}, {
    {false, {}, {}},
    {false, {8}, {{8, "|context.attr(\"w\")=::n::v"}}}}},
  {"o1", 0, {nullptr, "expose_as(S4b)"}, {
    {false, {}, {}},
    {false, {4, 19, 20, 21}, {{4, "|class<::n::S4>(\"S4b\")"}, {19, ".S4b|context.def(pybind11::init<>(),\"\")"}, {19, ".S4b|context.def(pybind11::init<const::n::S4&>(),\"\",pybind11::arg(\"\"))"}, {19, ".S4b|context.def(\"k\",pybind11::overload_cast<>(&::n::S4::k),\"\")"}}}}},
  {"s7", 0, {"visible", nullptr, "expose_as(S8)"}, {
    {false, {}, {}},
    {false, {5, 22, 23, 24, 25}, {}},
    {false, {5, 22, 23, 24, 25}, {{5, "|class<::h::S7>(\"S8\")"}, {22, ".S8|context.def(pybind11::init<>(),\"\")"}, {22, ".S8|context.def(pybind11::init<const::h::S7&>(),\"\",pybind11::arg(\"\"))"}, {22, ".S8|context.def(\"k\",pybind11::overload_cast<>(&::h::S7::k),\"\")"}, {22, ".S8|context.def_readwrite(\"x\",&::h::S7::x)"}}}}},
  {"s7x", 0, {nullptr, "hidden", "readonly"}, {
    {false, {}, {}},
    {false, {25}, {}},
    {false, {25}, {{25, ".S7|context.def_readonly(\"x\",&::h::S7::x)"}}}}},
  {"f8", 0, {"visible", nullptr, "hidden", "expose_as(f9)"}, {
    {false, {}, {}},
    {false, {26}, {}},
    {false, {26}, {}},
    {false, {26}, {{26, "|context.def(\"f9\",pybind11::overload_cast<>(&::h::j::f8),\"\")"}}}}},
}};
RegE R0({"C01.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
