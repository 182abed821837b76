// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace a GENPYBIND(__sel_a) {
  void f(); extern int v; struct S { struct In {}; enum E { e }; void m(); }; enum class EC { x };
  struct GENPYBIND(visible) Vis {};
  using Al GENPYBIND(visible) = S;
  namespace sub GENPYBIND(__sel_sub) { void g() GENPYBIND(visible); struct GENPYBIND(visible) T {}; namespace deep { void h() GENPYBIND(visible); } }
  namespace plain { struct GENPYBIND(visible) P : S {}; }
  inline namespace v1 GENPYBIND(__sel_v1) { struct I {}; void fi(); }
}
namespace b GENPYBIND(__sel_b) {
  void f() GENPYBIND(visible); struct GENPYBIND(visible) D : a::S { using X GENPYBIND(visible) = a::S; };
  using Moved GENPYBIND(__sel_mv) = a::Vis;
  using Moved2 GENPYBIND(__sel_mv2) = a::S::In;
}
namespace c GENPYBIND(visible) { using Out GENPYBIND(__sel_out) = b::D; struct Keep {}; void keep(); using b::f; }
)zoo";
const Zoo Z0{{
  "|class<::a::S>(\"S\")",
  ".S|class<::a::S::In>(\"In\")",
  ".S|enum<::a::S::E>(\"E\")",
  "|enum<::a::EC>(\"EC\")",
  "|class<::a::Vis>(\"Vis\")",
  "|submodule<>(\"sub\")",
  ".sub|class<::a::sub::T>(\"T\")",
  "|class<::a::plain::P,::a::S>(\"P\")",
  "|class<::a::I>(\"I\")",
  "|submodule<>(\"b\")",
  ".b|class<::b::D,::a::S>(\"D\")",
  "|class<::c::Keep>(\"Keep\")",
  "|context.def(\"f\",pybind11::overload_cast<>(&::a::f),\"\")",
  "|context.attr(\"v\")=::a::v",
  "|context.attr(\"Al\")=::genpybind::getObjectForType<::a::S>()",
  ".S|context.def(pybind11::init<>(),\"\")",
  ".S|context.def(pybind11::init<const::a::S&>(),\"\",pybind11::arg(\"\"))",
  ".S|context.def(\"m\",pybind11::overload_cast<>(&::a::S::m),\"\")",
  ".S.In|context.def(pybind11::init<>(),\"\")",
  ".S.In|context.def(pybind11::init<const::a::S::In&>(),\"\",pybind11::arg(\"\"))",
  ".S.E|context.value(\"e\",::a::S::E::e)",
  ".S.E|context.export_values()",
  ".EC|context.value(\"x\",::a::EC::x)",
  ".Vis|context.def(pybind11::init<>(),\"\")",
  ".Vis|context.def(pybind11::init<const::a::Vis&>(),\"\",pybind11::arg(\"\"))",
  ".sub|context.def(\"g\",pybind11::overload_cast<>(&::a::sub::g),\"\")",
  ".sub.T|context.def(pybind11::init<>(),\"\")",
  ".sub.T|context.def(pybind11::init<const::a::sub::T&>(),\"\",pybind11::arg(\"\"))",
  ".sub|context.def(\"h\",pybind11::overload_cast<>(&::a::sub::deep::h),\"\")",
  ".P|context.def(pybind11::init<>(),\"\")",
  ".P|context.def(pybind11::init<const::a::plain::P&>(),\"\",pybind11::arg(\"\"))",
  "|context.def(\"fi\",pybind11::overload_cast<>(&::a::fi),\"\")",
  ".I|context.def(pybind11::init<>(),\"\")",
  ".I|context.def(pybind11::init<const::a::I&>(),\"\",pybind11::arg(\"\"))",
  ".b|context.def(\"f\",pybind11::overload_cast<>(&::b::f),\"\")",
  ".b.D|context.def(pybind11::init<>(),\"\")",
  ".b.D|context.def(pybind11::init<const::b::D&>(),\"\",pybind11::arg(\"\"))",
  ".b.D|context.attr(\"X\")=::genpybind::getObjectForType<::a::S>()",
  "|context.def(\"f\",pybind11::overload_cast<>(&::b::f),\"\")",
  "|context.def(\"keep\",pybind11::overload_cast<>(&::c::keep),\"\")",
  ".Keep|context.def(pybind11::init<>(),\"\")",
  ".Keep|context.def(pybind11::init<const::c::Keep&>(),\"\",pybind11::arg(\"\"))"
}, {
  {"a", 0, {"visible", "visible, only_expose_in(example)", "visible, only_expose_in(other)", "visible, only_expose_in(other, example)", "visible, only_expose_in(Example)", "visible, only_expose_in(example2)", "visible, only_expose_in(\"example\")", "visible, only_expose_in(exampl)", "only_expose_in(example)", "visible, only_expose_in(other), only_expose_in(example)", "visible, only_expose_in(example), only_expose_in(other)"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33}, {{10, ".b|class<::b::D>(\"D\")"}}},
    {false, {}, {}},
    {false, {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33}, {{10, ".b|class<::b::D>(\"D\")"}}},
    {false, {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33}, {{10, ".b|class<::b::D>(\"D\")"}}},
    {false, {}, {}},
    {false, {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33}, {{10, ".b|class<::b::D>(\"D\")"}}},
    {false, {0, 1, 2, 3, 7, 10, 12, 13, 15, 16, 17, 18, 19, 20, 21, 22}, {{7, "|class<::a::plain::P>(\"P\")"}, {10, ".b|class<::b::D>(\"D\")"}}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"sub", 0, {"module", "module, only_expose_in(example)", "module, only_expose_in(other)", "module(example), only_expose_in(sub)"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {5, 6, 25, 26, 27, 28}, {}},
    {false, {5, 6, 25, 26, 27, 28}, {}}}},
  {"v1", 0, {"visible", "visible, only_expose_in(other)", "visible, only_expose_in(example)"}, {
    {false, {}, {}},
    {false, {8, 31, 32, 33}, {}},
    {false, {}, {}}}},
  {"b", 0, {"module, only_expose_in(example)", "module, only_expose_in(b)", "visible, only_expose_in(b)", "module(example), only_expose_in(nope)"}, {
    {false, {}, {}},
    {false, {9, 10, 34, 35, 36, 37}, {}},
    {false, {9, 10, 34, 35, 36, 37}, {}},
    {false, {9, 10, 34, 35, 36, 37}, {}}}},
  {"mv", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {false, {4, 23, 24}, {{10, ".b|class<::a::Vis>(\"Moved\")"}, {35, ".b.Moved|context.def(pybind11::init<>(),\"\")"}, {35, ".b.Moved|context.def(pybind11::init<const::a::Vis&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {{35, ".b|context.attr(\"Moved\")=::genpybind::getObjectForType<::a::Vis>()"}}}}},
  {"mv2", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {1, 18, 19}, {{10, ".b|class<::a::S::In>(\"Moved2\")"}, {35, ".b.Moved2|context.def(pybind11::init<>(),\"\")"}, {35, ".b.Moved2|context.def(pybind11::init<const::a::S::In&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"out", 0, {nullptr, "expose_here", "visible", "encourage"}, {
    {false, {}, {}},
    {false, {10, 35, 36, 37}, {{10, "|class<::b::D,::a::S>(\"Out\")"}, {35, ".Out|context.def(pybind11::init<>(),\"\")"}, {35, ".Out|context.def(pybind11::init<const::b::D&>(),\"\",pybind11::arg(\"\"))"}, {35, ".Out|context.attr(\"X\")=::genpybind::getObjectForType<::a::S>()"}}},
    {false, {}, {{39, "|context.attr(\"Out\")=::genpybind::getObjectForType<::b::D>()"}}},
    {false, {}, {{39, "|context.attr(\"Out\")=::genpybind::getObjectForType<::b::D>()"}}}}},
}};
RegE R0({"C10.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
const char *const H1 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace a GENPYBIND(__sel_a) {
  void f(); struct S { int x; }; namespace in { void g(); }
}
namespace hid GENPYBIND(__sel_hid) { void f(); struct GENPYBIND(visible) S { int x; }; }
void g() GENPYBIND(visible);
)zoo";
const Zoo Z1{{
  "|class<::a::S>(\"S\")",
  "|class<::hid::S>(\"S\")",
  "|context.def(\"g\",pybind11::overload_cast<>(&::g),\"\")",
  "|context.def(\"f\",pybind11::overload_cast<>(&::a::f),\"\")",
  ".S|context.def(pybind11::init<>(),\"\")",
  ".S|context.def(pybind11::init<const::a::S&>(),\"\",pybind11::arg(\"\"))",
  ".S|context.def_readwrite(\"x\",&::a::S::x)",
  "|context.def(\"g\",pybind11::overload_cast<>(&::a::in::g),\"\")",
  ".S|context.def(pybind11::init<>(),\"\")",
  ".S|context.def(pybind11::init<const::hid::S&>(),\"\",pybind11::arg(\"\"))",
  ".S|context.def_readwrite(\"x\",&::hid::S::x)"
}, {
  {"a", 0, {"visible, only_expose_in(pkg_mod)", "visible, only_expose_in(pkg)", "visible, only_expose_in(mod)", "visible, only_expose_in(pkg_mod_)", "visible, only_expose_in(example)", "visible, only_expose_in(\"pkg_mod\")", "visible, only_expose_in(pkg, mod, pkg_mod)", "visible, only_expose_in(pkg, mod)", "visible, only_expose_in(PKG_MOD)", "visible, only_expose_in(\"pkg.mod\")"}, {
    {false, {}, {}},
    {false, {0, 3, 4, 5, 6, 7}, {}},
    {false, {0, 3, 4, 5, 6, 7}, {}},
    {false, {0, 3, 4, 5, 6, 7}, {}},
    {false, {0, 3, 4, 5, 6, 7}, {}},
    {false, {}, {}},
    {false, {}, {}},
    {false, {0, 3, 4, 5, 6, 7}, {}},
    {false, {0, 3, 4, 5, 6, 7}, {}},
    {false, {0, 3, 4, 5, 6, 7}, {}}}},
  {"hid", 0, {"only_expose_in(pkg_mod)", "only_expose_in(nope)", "only_expose_in(pkg_mod), visible"}, {
    {false, {}, {}},
    {false, {1, 8, 9, 10}, {}},
    {false, {}, {{8, "|context.def(\"f\",pybind11::overload_cast<>(&::hid::f),\"\")"}}}}},
}};
RegE R1({"C10.q.zoo2", H1, {"--module-name=pkg_mod"}, [](Env &e) { zooSetup(e, Z1); }, [](Env &e, const Result &r) { zooOracle(e, r, Z1); }});
} // namespace
