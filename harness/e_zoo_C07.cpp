// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace a GENPYBIND(__sel_a) {
  struct GENPYBIND(visible) A1 { struct In { enum Deep { d }; }; };
  namespace sub GENPYBIND(__sel_as) { void f() GENPYBIND(visible); struct GENPYBIND(visible) T {}; enum GENPYBIND(visible) En { en }; extern int v GENPYBIND(visible); }
  inline namespace v1 GENPYBIND(__sel_v1) { void inl() GENPYBIND(visible); struct GENPYBIND(visible) I {}; }
}
namespace b GENPYBIND(__sel_b) {
  namespace sub GENPYBIND(__sel_bs) { void f() GENPYBIND(visible); struct GENPYBIND(visible) T {}; namespace sub GENPYBIND(__sel_bss) { void f() GENPYBIND(visible); struct GENPYBIND(visible) T {}; } }
}
namespace c { namespace d GENPYBIND(__sel_d) { namespace e { namespace f GENPYBIND(__sel_f) { void g() GENPYBIND(visible); struct GENPYBIND(visible) H { struct I {}; }; } } } }
namespace empty GENPYBIND(__sel_empty) {}
namespace onlyhidden GENPYBIND(__sel_oh) { struct GENPYBIND(hidden) X {}; void g() GENPYBIND(hidden); }
namespace std { struct GENPYBIND(visible) StdThing {}; }
namespace __internal { struct GENPYBIND(visible) Reserved {}; }
namespace _single GENPYBIND(__sel_single) { struct GENPYBIND(visible) One {}; }
extern "C++" { namespace linked GENPYBIND(__sel_linked) { void lf() GENPYBIND(visible); } }
namespace q1::q2::q3 { void q() GENPYBIND(visible); }
namespace a GENPYBIND(__sel_a) { void reopened() GENPYBIND(visible); }
namespace o GENPYBIND(__sel_o) { struct Late; struct GENPYBIND(visible) Ou { struct In1; enum class En1 : int; struct Mid { struct Low; }; static void st(); }; void ofn() GENPYBIND(visible); namespace p GENPYBIND(__sel_p) { struct Far; enum class Fe : int; } }
struct GENPYBIND(__sel_late) o::Late { int x; };
struct o::Ou::In1 { int x; struct In2 {}; };
enum class o::Ou::En1 : int { e1 };
struct GENPYBIND(__sel_low) o::Ou::Mid::Low {};
struct GENPYBIND(visible) o::p::Far {};
namespace o GENPYBIND(__sel_o) { enum class GENPYBIND(visible) p::Fe : int { fe }; inline void Ou::st() {} inline void ofn() {} }
)zoo";
const Zoo Z0{{
  "|submodule<>(\"a\")",
  ".a|class<::a::A1>(\"A1\")",
  ".a.A1|class<::a::A1::In>(\"In\")",
  ".a.A1.In|enum<::a::A1::In::Deep>(\"Deep\")",
  ".a|submodule<>(\"sub\")",
  ".a.sub|class<::a::sub::T>(\"T\")",
  ".a.sub|enum<::a::sub::En>(\"En\")",
  ".a|class<::a::I>(\"I\")",
  "|submodule<>(\"b\")",
  ".b|submodule<>(\"sub\")",
  ".b.sub|class<::b::sub::T>(\"T\")",
  ".b.sub|submodule<>(\"sub\")",
  ".b.sub.sub|class<::b::sub::sub::T>(\"T\")",
  "|submodule<>(\"f\")",
  ".f|class<::c::d::e::f::H>(\"H\")",
  ".f.H|class<::c::d::e::f::H::I>(\"I\")",
  "|class<::_single::One>(\"One\")",
  "|submodule<>(\"o\")",
  ".o|class<::o::Ou>(\"Ou\")",
  ".o.Ou|class<::o::Ou::Mid>(\"Mid\")",
  ".o|submodule<>(\"p\")",
  ".o|class<::o::Late>(\"Late\")",
  ".o.Ou|class<::o::Ou::In1>(\"In1\")",
  ".o.Ou.In1|class<::o::Ou::In1::In2>(\"In2\")",
  ".o.Ou|enum<::o::Ou::En1>(\"En1\")",
  ".o.Ou.Mid|class<::o::Ou::Mid::Low>(\"Low\")",
  ".o.p|class<::o::p::Far>(\"Far\")",
  ".o.p|enum<::o::p::Fe>(\"Fe\")",
  ".a|context.def(\"reopened\",pybind11::overload_cast<>(&::a::reopened),\"\")",
  ".a.A1|context.def(pybind11::init<>(),\"\")",
  ".a.A1|context.def(pybind11::init<const::a::A1&>(),\"\",pybind11::arg(\"\"))",
  ".a.A1.In|context.def(pybind11::init<>(),\"\")",
  ".a.A1.In|context.def(pybind11::init<const::a::A1::In&>(),\"\",pybind11::arg(\"\"))",
  ".a.A1.In.Deep|context.value(\"d\",::a::A1::In::Deep::d)",
  ".a.A1.In.Deep|context.export_values()",
  ".a.sub|context.def(\"f\",pybind11::overload_cast<>(&::a::sub::f),\"\")",
  ".a.sub|context.attr(\"v\")=::a::sub::v",
  ".a.sub.T|context.def(pybind11::init<>(),\"\")",
  ".a.sub.T|context.def(pybind11::init<const::a::sub::T&>(),\"\",pybind11::arg(\"\"))",
  ".a.sub.En|context.value(\"en\",::a::sub::En::en)",
  ".a.sub.En|context.export_values()",
  ".a|context.def(\"inl\",pybind11::overload_cast<>(&::a::inl),\"\")",
  ".a.I|context.def(pybind11::init<>(),\"\")",
  ".a.I|context.def(pybind11::init<const::a::I&>(),\"\",pybind11::arg(\"\"))",
  ".b.sub|context.def(\"f\",pybind11::overload_cast<>(&::b::sub::f),\"\")",
  ".b.sub.T|context.def(pybind11::init<>(),\"\")",
  ".b.sub.T|context.def(pybind11::init<const::b::sub::T&>(),\"\",pybind11::arg(\"\"))",
  ".b.sub.sub|context.def(\"f\",pybind11::overload_cast<>(&::b::sub::sub::f),\"\")",
  ".b.sub.sub.T|context.def(pybind11::init<>(),\"\")",
  ".b.sub.sub.T|context.def(pybind11::init<const::b::sub::sub::T&>(),\"\",pybind11::arg(\"\"))",
  ".f|context.def(\"g\",pybind11::overload_cast<>(&::c::d::e::f::g),\"\")",
  ".f.H|context.def(pybind11::init<>(),\"\")",
  ".f.H|context.def(pybind11::init<const::c::d::e::f::H&>(),\"\",pybind11::arg(\"\"))",
  ".f.H.I|context.def(pybind11::init<>(),\"\")",
  ".f.H.I|context.def(pybind11::init<const::c::d::e::f::H::I&>(),\"\",pybind11::arg(\"\"))",
  ".One|context.def(pybind11::init<>(),\"\")",
  ".One|context.def(pybind11::init<const::_single::One&>(),\"\",pybind11::arg(\"\"))",
  "|context.def(\"lf\",pybind11::overload_cast<>(&::linked::lf),\"\")",
  "|context.def(\"q\",pybind11::overload_cast<>(&::q1::q2::q3::q),\"\")",
  ".o|context.def(\"ofn\",pybind11::overload_cast<>(&::o::ofn),\"\")",
  ".o.Ou|context.def(pybind11::init<>(),\"\")",
  ".o.Ou|context.def(pybind11::init<const::o::Ou&>(),\"\",pybind11::arg(\"\"))",
  ".o.Ou|context.def_static(\"st\",pybind11::overload_cast<>(&::o::Ou::st),\"\")",
  ".o.Ou.Mid|context.def(pybind11::init<>(),\"\")",
  ".o.Ou.Mid|context.def(pybind11::init<const::o::Ou::Mid&>(),\"\",pybind11::arg(\"\"))",
  ".o.Late|context.def(pybind11::init<>(),\"\")",
  ".o.Late|context.def(pybind11::init<const::o::Late&>(),\"\",pybind11::arg(\"\"))",
  ".o.Late|context.def_readwrite(\"x\",&::o::Late::x)",
  ".o.Ou.In1|context.def(pybind11::init<>(),\"\")",
  ".o.Ou.In1|context.def(pybind11::init<const::o::Ou::In1&>(),\"\",pybind11::arg(\"\"))",
  ".o.Ou.In1|context.def_readwrite(\"x\",&::o::Ou::In1::x)",
  ".o.Ou.In1.In2|context.def(pybind11::init<>(),\"\")",
  ".o.Ou.In1.In2|context.def(pybind11::init<const::o::Ou::In1::In2&>(),\"\",pybind11::arg(\"\"))",
  ".o.Ou.En1|context.value(\"e1\",::o::Ou::En1::e1)",
  ".o.Ou.Mid.Low|context.def(pybind11::init<>(),\"\")",
  ".o.Ou.Mid.Low|context.def(pybind11::init<const::o::Ou::Mid::Low&>(),\"\",pybind11::arg(\"\"))",
  ".o.p.Far|context.def(pybind11::init<>(),\"\")",
  ".o.p.Far|context.def(pybind11::init<const::o::p::Far&>(),\"\",pybind11::arg(\"\"))",
  ".o.p.Fe|context.value(\"fe\",::o::p::Fe::fe)"
}, {
  {"a", 0, {"module", "visible", "module(x), visible", nullptr}, {
    {false, {}, {}},
    {false, {0, 1, 2, 3, 4, 5, 6, 7, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43}, {{0, "|class<::a::A1>(\"A1\")"}, {0, ".A1|class<::a::A1::In>(\"In\")"}, {0, ".A1.In|enum<::a::A1::In::Deep>(\"Deep\")"}, {0, "|submodule<>(\"sub\")"}, {0, ".sub|class<::a::sub::T>(\"T\")"}, {0, ".sub|enum<::a::sub::En>(\"En\")"}, {0, "|class<::a::I>(\"I\")"}, {28, "|context.def(\"reopened\",pybind11::overload_cast<>(&::a::reopened),\"\")"}, {28, ".A1|context.def(pybind11::init<>(),\"\")"}, {28, ".A1|context.def(pybind11::init<const::a::A1&>(),\"\",pybind11::arg(\"\"))"}, {28, ".A1.In|context.def(pybind11::init<>(),\"\")"}, {28, ".A1.In|context.def(pybind11::init<const::a::A1::In&>(),\"\",pybind11::arg(\"\"))"}, {28, ".A1.In.Deep|context.value(\"d\",::a::A1::In::Deep::d)"}, {28, ".A1.In.Deep|context.export_values()"}, {28, ".sub|context.def(\"f\",pybind11::overload_cast<>(&::a::sub::f),\"\")"}, {28, ".sub|context.attr(\"v\")=::a::sub::v"}, {28, ".sub.T|context.def(pybind11::init<>(),\"\")"}, {28, ".sub.T|context.def(pybind11::init<const::a::sub::T&>(),\"\",pybind11::arg(\"\"))"}, {28, ".sub.En|context.value(\"en\",::a::sub::En::en)"}, {28, ".sub.En|context.export_values()"}, {28, "|context.def(\"inl\",pybind11::overload_cast<>(&::a::inl),\"\")"}, {28, ".I|context.def(pybind11::init<>(),\"\")"}, {28, ".I|context.def(pybind11::init<const::a::I&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {0, 1, 2, 3, 4, 5, 6, 7, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43}, {{0, "|submodule<>(\"x\")"}, {0, ".x|class<::a::A1>(\"A1\")"}, {0, ".x.A1|class<::a::A1::In>(\"In\")"}, {0, ".x.A1.In|enum<::a::A1::In::Deep>(\"Deep\")"}, {0, ".x|submodule<>(\"sub\")"}, {0, ".x.sub|class<::a::sub::T>(\"T\")"}, {0, ".x.sub|enum<::a::sub::En>(\"En\")"}, {0, ".x|class<::a::I>(\"I\")"}, {28, ".x|context.def(\"reopened\",pybind11::overload_cast<>(&::a::reopened),\"\")"}, {28, ".x.A1|context.def(pybind11::init<>(),\"\")"}, {28, ".x.A1|context.def(pybind11::init<const::a::A1&>(),\"\",pybind11::arg(\"\"))"}, {28, ".x.A1.In|context.def(pybind11::init<>(),\"\")"}, {28, ".x.A1.In|context.def(pybind11::init<const::a::A1::In&>(),\"\",pybind11::arg(\"\"))"}, {28, ".x.A1.In.Deep|context.value(\"d\",::a::A1::In::Deep::d)"}, {28, ".x.A1.In.Deep|context.export_values()"}, {28, ".x.sub|context.def(\"f\",pybind11::overload_cast<>(&::a::sub::f),\"\")"}, {28, ".x.sub|context.attr(\"v\")=::a::sub::v"}, {28, ".x.sub.T|context.def(pybind11::init<>(),\"\")"}, {28, ".x.sub.T|context.def(pybind11::init<const::a::sub::T&>(),\"\",pybind11::arg(\"\"))"}, {28, ".x.sub.En|context.value(\"en\",::a::sub::En::en)"}, {28, ".x.sub.En|context.export_values()"}, {28, ".x|context.def(\"inl\",pybind11::overload_cast<>(&::a::inl),\"\")"}, {28, ".x.I|context.def(pybind11::init<>(),\"\")"}, {28, ".x.I|context.def(pybind11::init<const::a::I&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {0, 1, 2, 3, 4, 5, 6, 7, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43}, {{0, "|class<::a::A1>(\"A1\")"}, {0, ".A1|class<::a::A1::In>(\"In\")"}, {0, ".A1.In|enum<::a::A1::In::Deep>(\"Deep\")"}, {0, "|submodule<>(\"sub\")"}, {0, ".sub|class<::a::sub::T>(\"T\")"}, {0, ".sub|enum<::a::sub::En>(\"En\")"}, {0, "|class<::a::I>(\"I\")"}, {28, "|context.def(\"reopened\",pybind11::overload_cast<>(&::a::reopened),\"\")"}, {28, ".A1|context.def(pybind11::init<>(),\"\")"}, {28, ".A1|context.def(pybind11::init<const::a::A1&>(),\"\",pybind11::arg(\"\"))"}, {28, ".A1.In|context.def(pybind11::init<>(),\"\")"}, {28, ".A1.In|context.def(pybind11::init<const::a::A1::In&>(),\"\",pybind11::arg(\"\"))"}, {28, ".A1.In.Deep|context.value(\"d\",::a::A1::In::Deep::d)"}, {28, ".A1.In.Deep|context.export_values()"}, {28, ".sub|context.def(\"f\",pybind11::overload_cast<>(&::a::sub::f),\"\")"}, {28, ".sub|context.attr(\"v\")=::a::sub::v"}, {28, ".sub.T|context.def(pybind11::init<>(),\"\")"}, {28, ".sub.T|context.def(pybind11::init<const::a::sub::T&>(),\"\",pybind11::arg(\"\"))"}, {28, ".sub.En|context.value(\"en\",::a::sub::En::en)"}, {28, ".sub.En|context.export_values()"}, {28, "|context.def(\"inl\",pybind11::overload_cast<>(&::a::inl),\"\")"}, {28, ".I|context.def(pybind11::init<>(),\"\")"}, {28, ".I|context.def(pybind11::init<const::a::I&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"as", 0, {"module", "visible", "module(other)", nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {4, 5, 6, 35, 36, 37, 38, 39, 40}, {{4, ".a|class<::a::sub::T>(\"T\")"}, {4, ".a|enum<::a::sub::En>(\"En\")"}, {35, ".a|context.def(\"f\",pybind11::overload_cast<>(&::a::sub::f),\"\")"}, {35, ".a|context.attr(\"v\")=::a::sub::v"}, {35, ".a.T|context.def(pybind11::init<>(),\"\")"}, {35, ".a.T|context.def(pybind11::init<const::a::sub::T&>(),\"\",pybind11::arg(\"\"))"}, {35, ".a.En|context.value(\"en\",::a::sub::En::en)"}, {35, ".a.En|context.export_values()"}}},
    {false, {4, 5, 6, 35, 36, 37, 38, 39, 40}, {{4, ".a|submodule<>(\"other\")"}, {4, ".a.other|class<::a::sub::T>(\"T\")"}, {4, ".a.other|enum<::a::sub::En>(\"En\")"}, {35, ".a.other|context.def(\"f\",pybind11::overload_cast<>(&::a::sub::f),\"\")"}, {35, ".a.other|context.attr(\"v\")=::a::sub::v"}, {35, ".a.other.T|context.def(pybind11::init<>(),\"\")"}, {35, ".a.other.T|context.def(pybind11::init<const::a::sub::T&>(),\"\",pybind11::arg(\"\"))"}, {35, ".a.other.En|context.value(\"en\",::a::sub::En::en)"}, {35, ".a.other.En|context.export_values()"}}},
    {false, {4, 5, 6, 35, 36, 37, 38, 39, 40}, {{4, ".a|class<::a::sub::T>(\"T\")"}, {4, ".a|enum<::a::sub::En>(\"En\")"}, {35, ".a|context.def(\"f\",pybind11::overload_cast<>(&::a::sub::f),\"\")"}, {35, ".a|context.attr(\"v\")=::a::sub::v"}, {35, ".a.T|context.def(pybind11::init<>(),\"\")"}, {35, ".a.T|context.def(pybind11::init<const::a::sub::T&>(),\"\",pybind11::arg(\"\"))"}, {35, ".a.En|context.value(\"en\",::a::sub::En::en)"}, {35, ".a.En|context.export_values()"}}},
    {false, {4, 5, 6, 35, 36, 37, 38, 39, 40}, {{4, ".a|class<::a::sub::T>(\"T\")"}, {4, ".a|enum<::a::sub::En>(\"En\")"}, {35, ".a|context.def(\"f\",pybind11::overload_cast<>(&::a::sub::f),\"\")"}, {35, ".a|context.attr(\"v\")=::a::sub::v"}, {35, ".a.T|context.def(pybind11::init<>(),\"\")"}, {35, ".a.T|context.def(pybind11::init<const::a::sub::T&>(),\"\",pybind11::arg(\"\"))"}, {35, ".a.En|context.value(\"en\",::a::sub::En::en)"}, {35, ".a.En|context.export_values()"}}}}},
  {"v1", 0, {nullptr, "module", "visible"}, {
    {false, {}, {}},
    {false, {7, 41, 42, 43}, {{7, ".a|submodule<>(\"v1\")"}, {7, ".a.v1|class<::a::I>(\"I\")"}, {41, ".a.v1|context.def(\"inl\",pybind11::overload_cast<>(&::a::inl),\"\")"}, {41, ".a.v1.I|context.def(pybind11::init<>(),\"\")"}, {41, ".a.v1.I|context.def(pybind11::init<const::a::I&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {}}}},
  {"b", 0, {"module", nullptr}, {
    {false, {}, {}},
    {false, {8, 9, 10, 11, 12, 44, 45, 46, 47, 48, 49}, {{8, "|submodule<>(\"sub\")"}, {8, ".sub|class<::b::sub::T>(\"T\")"}, {8, ".sub|submodule<>(\"sub\")"}, {8, ".sub.sub|class<::b::sub::sub::T>(\"T\")"}, {44, ".sub|context.def(\"f\",pybind11::overload_cast<>(&::b::sub::f),\"\")"}, {44, ".sub.T|context.def(pybind11::init<>(),\"\")"}, {44, ".sub.T|context.def(pybind11::init<const::b::sub::T&>(),\"\",pybind11::arg(\"\"))"}, {44, ".sub.sub|context.def(\"f\",pybind11::overload_cast<>(&::b::sub::sub::f),\"\")"}, {44, ".sub.sub.T|context.def(pybind11::init<>(),\"\")"}, {44, ".sub.sub.T|context.def(pybind11::init<const::b::sub::sub::T&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"bs", 0, {"module", nullptr, "module(third)"}, {
    {false, {}, {}},
    {false, {10, 11, 12, 44, 46, 47, 48, 49}, {{9, ".b|class<::b::sub::T>(\"T\")"}, {10, ".b.sub|class<::b::sub::sub::T>(\"T\")"}, {44, ".b|context.def(\"f\",pybind11::overload_cast<>(&::b::sub::f),\"\")"}, {44, ".b.T|context.def(pybind11::init<>(),\"\")"}, {44, ".b.T|context.def(pybind11::init<const::b::sub::T&>(),\"\",pybind11::arg(\"\"))"}, {44, ".b.sub|context.def(\"f\",pybind11::overload_cast<>(&::b::sub::sub::f),\"\")"}, {46, ".b.sub.T|context.def(pybind11::init<const::b::sub::sub::T&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {9, 10, 11, 12, 44, 45, 46, 47, 48, 49}, {{9, ".b|submodule<>(\"third\")"}, {9, ".b.third|class<::b::sub::T>(\"T\")"}, {9, ".b.third|submodule<>(\"sub\")"}, {9, ".b.third.sub|class<::b::sub::sub::T>(\"T\")"}, {44, ".b.third|context.def(\"f\",pybind11::overload_cast<>(&::b::sub::f),\"\")"}, {44, ".b.third.T|context.def(pybind11::init<>(),\"\")"}, {44, ".b.third.T|context.def(pybind11::init<const::b::sub::T&>(),\"\",pybind11::arg(\"\"))"}, {44, ".b.third.sub|context.def(\"f\",pybind11::overload_cast<>(&::b::sub::sub::f),\"\")"}, {44, ".b.third.sub.T|context.def(pybind11::init<>(),\"\")"}, {44, ".b.third.sub.T|context.def(pybind11::init<const::b::sub::sub::T&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"bss", 0, {"module", nullptr, "module(more)"}, {
    {false, {}, {}},
    {false, {11, 12, 47, 48, 49}, {{11, ".b.sub|class<::b::sub::sub::T>(\"T\")"}, {47, ".b.sub|context.def(\"f\",pybind11::overload_cast<>(&::b::sub::sub::f),\"\")"}, {47, ".b.sub.T|context.def(pybind11::init<>(),\"\")"}, {47, ".b.sub.T|context.def(pybind11::init<const::b::sub::sub::T&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {11, 12, 47, 48, 49}, {{11, ".b.sub|submodule<>(\"more\")"}, {11, ".b.sub.more|class<::b::sub::sub::T>(\"T\")"}, {47, ".b.sub.more|context.def(\"f\",pybind11::overload_cast<>(&::b::sub::sub::f),\"\")"}, {47, ".b.sub.more.T|context.def(pybind11::init<>(),\"\")"}, {47, ".b.sub.more.T|context.def(pybind11::init<const::b::sub::sub::T&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"d", 0, {nullptr, "module"}, {
    {false, {}, {}},
    {false, {13, 14, 15, 50, 51, 52, 53, 54}, {{13, "|submodule<>(\"d\")"}, {13, ".d|submodule<>(\"f\")"}, {13, ".d.f|class<::c::d::e::f::H>(\"H\")"}, {13, ".d.f.H|class<::c::d::e::f::H::I>(\"I\")"}, {50, ".d.f|context.def(\"g\",pybind11::overload_cast<>(&::c::d::e::f::g),\"\")"}, {50, ".d.f.H|context.def(pybind11::init<>(),\"\")"}, {50, ".d.f.H|context.def(pybind11::init<const::c::d::e::f::H&>(),\"\",pybind11::arg(\"\"))"}, {50, ".d.f.H.I|context.def(pybind11::init<>(),\"\")"}, {50, ".d.f.H.I|context.def(pybind11::init<const::c::d::e::f::H::I&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"f", 0, {"module", nullptr}, {
    {false, {}, {}},
    {false, {13, 14, 15, 50, 51, 52, 53, 54}, {{13, "|class<::c::d::e::f::H>(\"H\")"}, {13, ".H|class<::c::d::e::f::H::I>(\"I\")"}, {50, "|context.def(\"g\",pybind11::overload_cast<>(&::c::d::e::f::g),\"\")"}, {50, ".H|context.def(pybind11::init<>(),\"\")"}, {50, ".H|context.def(pybind11::init<const::c::d::e::f::H&>(),\"\",pybind11::arg(\"\"))"}, {50, ".H.I|context.def(pybind11::init<>(),\"\")"}, {50, ".H.I|context.def(pybind11::init<const::c::d::e::f::H::I&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"empty", 0, {nullptr, "module", "visible", "module, visible"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"oh", 0, {nullptr, "module"}, {
    {false, {}, {}},
    {false, {}, {}}}},
  {"single", 0, {nullptr, "module"}, {
    {false, {}, {}},
    {false, {16, 55, 56}, {{16, "|submodule<>(\"_single\")"}, {16, "._single|class<::_single::One>(\"One\")"}, {55, "._single.One|context.def(pybind11::init<>(),\"\")"}, {55, "._single.One|context.def(pybind11::init<const::_single::One&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"linked", 0, {nullptr, "module"}, {
    {false, {}, {}},
    {false, {57}, {{17, "|submodule<>(\"linked\")"}, {57, ".linked|context.def(\"lf\",pybind11::overload_cast<>(&::linked::lf),\"\")"}}}}},
  {"o", 0, {"module", "visible", nullptr}, {
    {false, {}, {}},
    {false, {17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78}, {{17, "|class<::o::Ou>(\"Ou\")"}, {17, ".Ou|class<::o::Ou::Mid>(\"Mid\")"}, {17, "|submodule<>(\"p\")"}, {17, "|class<::o::Late>(\"Late\")"}, {17, ".Ou|class<::o::Ou::In1>(\"In1\")"}, {17, ".Ou.In1|class<::o::Ou::In1::In2>(\"In2\")"}, {17, ".Ou|enum<::o::Ou::En1>(\"En1\")"}, {17, ".Ou.Mid|class<::o::Ou::Mid::Low>(\"Low\")"}, {17, ".p|class<::o::p::Far>(\"Far\")"}, {17, ".p|enum<::o::p::Fe>(\"Fe\")"}, {59, "|context.def(\"ofn\",pybind11::overload_cast<>(&::o::ofn),\"\")"}, {59, ".Ou|context.def(pybind11::init<>(),\"\")"}, {59, ".Ou|context.def(pybind11::init<const::o::Ou&>(),\"\",pybind11::arg(\"\"))"}, {59, ".Ou|context.def_static(\"st\",pybind11::overload_cast<>(&::o::Ou::st),\"\")"}, {59, ".Ou.Mid|context.def(pybind11::init<>(),\"\")"}, {59, ".Ou.Mid|context.def(pybind11::init<const::o::Ou::Mid&>(),\"\",pybind11::arg(\"\"))"}, {59, ".Late|context.def(pybind11::init<>(),\"\")"}, {59, ".Late|context.def(pybind11::init<const::o::Late&>(),\"\",pybind11::arg(\"\"))"}, {59, ".Late|context.def_readwrite(\"x\",&::o::Late::x)"}, {59, ".Ou.In1|context.def(pybind11::init<>(),\"\")"}, {59, ".Ou.In1|context.def(pybind11::init<const::o::Ou::In1&>(),\"\",pybind11::arg(\"\"))"}, {59, ".Ou.In1|context.def_readwrite(\"x\",&::o::Ou::In1::x)"}, {59, ".Ou.In1.In2|context.def(pybind11::init<>(),\"\")"}, {59, ".Ou.In1.In2|context.def(pybind11::init<const::o::Ou::In1::In2&>(),\"\",pybind11::arg(\"\"))"}, {59, ".Ou.En1|context.value(\"e1\",::o::Ou::En1::e1)"}, {59, ".Ou.Mid.Low|context.def(pybind11::init<>(),\"\")"}, {59, ".Ou.Mid.Low|context.def(pybind11::init<const::o::Ou::Mid::Low&>(),\"\",pybind11::arg(\"\"))"}, {59, ".p.Far|context.def(pybind11::init<>(),\"\")"}, {59, ".p.Far|context.def(pybind11::init<const::o::p::Far&>(),\"\",pybind11::arg(\"\"))"}, {59, ".p.Fe|context.value(\"fe\",::o::p::Fe::fe)"}}},
    {false, {17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78}, {{17, "|class<::o::Ou>(\"Ou\")"}, {17, ".Ou|class<::o::Ou::Mid>(\"Mid\")"}, {17, "|submodule<>(\"p\")"}, {17, "|class<::o::Late>(\"Late\")"}, {17, ".Ou|class<::o::Ou::In1>(\"In1\")"}, {17, ".Ou.In1|class<::o::Ou::In1::In2>(\"In2\")"}, {17, ".Ou|enum<::o::Ou::En1>(\"En1\")"}, {17, ".Ou.Mid|class<::o::Ou::Mid::Low>(\"Low\")"}, {17, ".p|class<::o::p::Far>(\"Far\")"}, {17, ".p|enum<::o::p::Fe>(\"Fe\")"}, {59, "|context.def(\"ofn\",pybind11::overload_cast<>(&::o::ofn),\"\")"}, {59, ".Ou|context.def(pybind11::init<>(),\"\")"}, {59, ".Ou|context.def(pybind11::init<const::o::Ou&>(),\"\",pybind11::arg(\"\"))"}, {59, ".Ou|context.def_static(\"st\",pybind11::overload_cast<>(&::o::Ou::st),\"\")"}, {59, ".Ou.Mid|context.def(pybind11::init<>(),\"\")"}, {59, ".Ou.Mid|context.def(pybind11::init<const::o::Ou::Mid&>(),\"\",pybind11::arg(\"\"))"}, {59, ".Late|context.def(pybind11::init<>(),\"\")"}, {59, ".Late|context.def(pybind11::init<const::o::Late&>(),\"\",pybind11::arg(\"\"))"}, {59, ".Late|context.def_readwrite(\"x\",&::o::Late::x)"}, {59, ".Ou.In1|context.def(pybind11::init<>(),\"\")"}, {59, ".Ou.In1|context.def(pybind11::init<const::o::Ou::In1&>(),\"\",pybind11::arg(\"\"))"}, {59, ".Ou.In1|context.def_readwrite(\"x\",&::o::Ou::In1::x)"}, {59, ".Ou.In1.In2|context.def(pybind11::init<>(),\"\")"}, {59, ".Ou.In1.In2|context.def(pybind11::init<const::o::Ou::In1::In2&>(),\"\",pybind11::arg(\"\"))"}, {59, ".Ou.En1|context.value(\"e1\",::o::Ou::En1::e1)"}, {59, ".Ou.Mid.Low|context.def(pybind11::init<>(),\"\")"}, {59, ".Ou.Mid.Low|context.def(pybind11::init<const::o::Ou::Mid::Low&>(),\"\",pybind11::arg(\"\"))"}, {59, ".p.Far|context.def(pybind11::init<>(),\"\")"}, {59, ".p.Far|context.def(pybind11::init<const::o::p::Far&>(),\"\",pybind11::arg(\"\"))"}, {59, ".p.Fe|context.value(\"fe\",::o::p::Fe::fe)"}}}}},
  {"p", 0, {"module", nullptr}, {
    {false, {}, {}},
    {false, {20, 26, 27, 76, 77, 78}, {{26, ".o|class<::o::p::Far>(\"Far\")"}, {26, ".o|enum<::o::p::Fe>(\"Fe\")"}, {76, ".o.Far|context.def(pybind11::init<>(),\"\")"}, {76, ".o.Far|context.def(pybind11::init<const::o::p::Far&>(),\"\",pybind11::arg(\"\"))"}, {76, ".o.Fe|context.value(\"fe\",::o::p::Fe::fe)"}}}}},
  {"late", 0, {"visible", nullptr, "hidden", "expose_as(L8)"}, {
    {false, {}, {}},
    {false, {21, 65, 66, 67}, {}},
    {false, {21, 65, 66, 67}, {}},
    {false, {21, 65, 66, 67}, {{21, ".o|class<::o::Late>(\"L8\")"}, {65, ".o.L8|context.def(pybind11::init<>(),\"\")"}, {65, ".o.L8|context.def(pybind11::init<const::o::Late&>(),\"\",pybind11::arg(\"\"))"}, {65, ".o.L8|context.def_readwrite(\"x\",&::o::Late::x)"}}}}},
  {"low", 0, {nullptr, "hidden", "expose_as(Lo)"}, {
    {false, {}, {}},
    {false, {25, 74, 75}, {}},
    {false, {25, 74, 75}, {{25, ".o.Ou.Mid|class<::o::Ou::Mid::Low>(\"Lo\")"}, {74, ".o.Ou.Mid.Lo|context.def(pybind11::init<>(),\"\")"}, {74, ".o.Ou.Mid.Lo|context.def(pybind11::init<const::o::Ou::Mid::Low&>(),\"\",pybind11::arg(\"\"))"}}}}},
}};
RegE R0({"C07.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
