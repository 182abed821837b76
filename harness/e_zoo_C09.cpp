// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct A { struct In { enum Deep { d1, d2 }; void m(); }; enum class E { x }; void f(); static int s; using Self = A; };
struct GENPYBIND(__sel_b) B : A { int y; };
struct C; struct C { int z; };
struct GENPYBIND(__sel_fwd) Later;
enum G { g1, g2 GENPYBIND(hidden) };
struct GENPYBIND(hidden) HB { int hb; }; struct GENPYBIND(visible) VB { int vb; };
template <typename T> struct Tp { T x; struct Nested { T y; }; };
template <typename T> using TpAlias = Tp<T>;
}
namespace hid { struct H { int h; struct HI {}; }; enum class HE { he }; namespace GENPYBIND_NS { struct X {}; } }
namespace m GENPYBIND(__sel_m) {
using A1 GENPYBIND(__sel_a1) = n::A;
typedef n::B B1 GENPYBIND(__sel_b1);
using HB1 GENPYBIND(__sel_hb1) = n::HB;
using C1 GENPYBIND(__sel_c1) = n::C;
using H1 GENPYBIND(__sel_h1) = hid::H;
using HE1 GENPYBIND(__sel_he1) = hid::HE;
using HI1 GENPYBIND(__sel_hi1) = hid::H::HI;
using HX GENPYBIND(__sel_hx) = hid::GENPYBIND_NS::X;
using T1 GENPYBIND(__sel_t1) = n::Tp<int>;
using T2 GENPYBIND(__sel_t2) = n::TpAlias<char>;
using T3 GENPYBIND(__sel_t3) = const n::Tp<long>;
using D1 GENPYBIND(__sel_d1) = n::A::In::Deep;
using Elab GENPYBIND(__sel_elab) = enum n::G;
struct GENPYBIND(visible) Host { using In GENPYBIND(__sel_hin) = n::A::In; using E GENPYBIND(__sel_he) = n::A::E; struct Sub { using Deep GENPYBIND(__sel_hdeep) = n::C; }; };
}
namespace hid { using VB1 GENPYBIND(__sel_vb1) = n::VB; }
namespace n GENPYBIND(visible) {
struct Later { int l; };
struct W {}; using W1 GENPYBIND(__sel_w1) = W; using W2 GENPYBIND(__sel_w2) = W; typedef W1 W3 GENPYBIND(__sel_w3);
struct Later2 { using L GENPYBIND(__sel_lat) = Later; };
using Chain1 GENPYBIND(__sel_ch1) = m::A1;
using Chain2 GENPYBIND(__sel_ch2) = Chain1;
using Bad GENPYBIND(__sel_bad) = int;
using Bad2 GENPYBIND(__sel_bad2) = A *;
using Bad3 GENPYBIND(__sel_bad3) = void(int);
struct Incomplete; using Bad4 GENPYBIND(__sel_bad4) = Incomplete;
struct Own { using Me GENPYBIND(__sel_me) = Own; struct Inner { using Up GENPYBIND(__sel_up) = Own; }; };
}
)zoo";
const Zoo Z0{{
  "|class<::n::A>(\"A\")",
  ".A|class<::n::A::In>(\"In\")",
  ".A.In|enum<::n::A::In::Deep>(\"Deep\")",
  ".A|enum<::n::A::E>(\"E\")",
  "|class<::n::B,::n::A>(\"B\")",
  "|class<::n::C>(\"C\")",
  "|enum<::n::G>(\"G\")",
  "|class<::n::VB>(\"VB\")",
  "|submodule<>(\"m\")",
  ".m|class<::m::Host>(\"Host\")",
  ".m.Host|class<::m::Host::Sub>(\"Sub\")",
  "|class<::n::Later>(\"Later\")",
  "|class<::n::W>(\"W1\")",
  "|class<::n::Later2>(\"Later2\")",
  "|class<::n::Own>(\"Own\")",
  ".Own|class<::n::Own::Inner>(\"Inner\")",
  ".A|context.def(pybind11::init<>(),\"\")",
  ".A|context.def(pybind11::init<const::n::A&>(),\"\",pybind11::arg(\"\"))",
  ".A|context.def(\"f\",pybind11::overload_cast<>(&::n::A::f),\"\")",
  ".A|context.def_readwrite_static(\"s\",&::n::A::s)",
  ".A.In|context.def(pybind11::init<>(),\"\")",
  ".A.In|context.def(pybind11::init<const::n::A::In&>(),\"\",pybind11::arg(\"\"))",
  ".A.In|context.def(\"m\",pybind11::overload_cast<>(&::n::A::In::m),\"\")",
  ".A.In.Deep|context.value(\"d1\",::n::A::In::Deep::d1)",
  ".A.In.Deep|context.value(\"d2\",::n::A::In::Deep::d2)",
  ".A.In.Deep|context.export_values()",
  ".A.E|context.value(\"x\",::n::A::E::x)",
  ".B|context.def(pybind11::init<>(),\"\")",
  ".B|context.def(pybind11::init<const::n::B&>(),\"\",pybind11::arg(\"\"))",
  ".B|context.def_readwrite(\"y\",&::n::B::y)",
  ".C|context.def(pybind11::init<>(),\"\")",
  ".C|context.def(pybind11::init<const::n::C&>(),\"\",pybind11::arg(\"\"))",
  ".C|context.def_readwrite(\"z\",&::n::C::z)",
  ".G|context.value(\"g1\",::n::G::g1)",
  ".G|context.export_values()",
  ".VB|context.def(pybind11::init<>(),\"\")",
  ".VB|context.def(pybind11::init<const::n::VB&>(),\"\",pybind11::arg(\"\"))",
  ".VB|context.def_readwrite(\"vb\",&::n::VB::vb)",
  ".m.Host|context.def(pybind11::init<>(),\"\")",
  ".m.Host|context.def(pybind11::init<const::m::Host&>(),\"\",pybind11::arg(\"\"))",
  ".m.Host.Sub|context.def(pybind11::init<>(),\"\")",
  ".m.Host.Sub|context.def(pybind11::init<const::m::Host::Sub&>(),\"\",pybind11::arg(\"\"))",
  ".Later|context.def(pybind11::init<>(),\"\")",
  ".Later|context.def(pybind11::init<const::n::Later&>(),\"\",pybind11::arg(\"\"))",
  ".Later|context.def_readwrite(\"l\",&::n::Later::l)",
  ".W1|context.def(pybind11::init<>(),\"\")",
  ".W1|context.def(pybind11::init<const::n::W&>(),\"\",pybind11::arg(\"\"))",
  ".Later2|context.def(pybind11::init<>(),\"\")",
  ".Later2|context.def(pybind11::init<const::n::Later2&>(),\"\",pybind11::arg(\"\"))",
  ".Own|context.def(pybind11::init<>(),\"\")",
  ".Own|context.def(pybind11::init<const::n::Own&>(),\"\",pybind11::arg(\"\"))",
  ".Own.Inner|context.def(pybind11::init<>(),\"\")",
  ".Own.Inner|context.def(pybind11::init<const::n::Own::Inner&>(),\"\",pybind11::arg(\"\"))"
}, {
  {"b", 0, {nullptr, "hidden", "expose_as(Bee)"}, {
    {false, {}, {}},
    {false, {4, 27, 28, 29}, {}},
    {false, {4, 27, 28, 29}, {{4, "|class<::n::B,::n::A>(\"Bee\")"}, {27, ".Bee|context.def(pybind11::init<>(),\"\")"}, {27, ".Bee|context.def(pybind11::init<const::n::B&>(),\"\",pybind11::arg(\"\"))"}, {27, ".Bee|context.def_readwrite(\"y\",&::n::B::y)"}}}}},
  {"fwd", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {11, 42, 43, 44}, {}}}},
  {"m", 0, {"module", "visible", nullptr, "module(other)"}, {
    {false, {}, {}},
    {false, {8, 9, 10, 38, 39, 40, 41}, {{7, "|class<::n::HB>(\"HB1\")"}, {8, "|class<::m::Host>(\"Host\")"}, {8, ".Host|class<::m::Host::Sub>(\"Sub\")"}, {35, ".HB1|context.def(pybind11::init<>(),\"\")"}, {35, ".HB1|context.def(pybind11::init<const::n::HB&>(),\"\",pybind11::arg(\"\"))"}, {35, ".HB1|context.def_readwrite(\"hb\",&::n::HB::hb)"}, {38, ".Host|context.def(pybind11::init<>(),\"\")"}, {38, ".Host|context.def(pybind11::init<const::m::Host&>(),\"\",pybind11::arg(\"\"))"}, {38, ".Host.Sub|context.def(pybind11::init<>(),\"\")"}, {38, ".Host.Sub|context.def(pybind11::init<const::m::Host::Sub&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {8, 9, 10, 38, 39, 40, 41}, {{8, "|class<::m::Host>(\"Host\")"}, {8, ".Host|class<::m::Host::Sub>(\"Sub\")"}, {38, ".Host|context.def(pybind11::init<>(),\"\")"}, {38, ".Host|context.def(pybind11::init<const::m::Host&>(),\"\",pybind11::arg(\"\"))"}, {38, ".Host.Sub|context.def(pybind11::init<>(),\"\")"}, {38, ".Host.Sub|context.def(pybind11::init<const::m::Host::Sub&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {8, 9, 10, 38, 39, 40, 41}, {{8, "|submodule<>(\"other\")"}, {8, ".other|class<::m::Host>(\"Host\")"}, {8, ".other.Host|class<::m::Host::Sub>(\"Sub\")"}, {38, ".other.Host|context.def(pybind11::init<>(),\"\")"}, {38, ".other.Host|context.def(pybind11::init<const::m::Host&>(),\"\",pybind11::arg(\"\"))"}, {38, ".other.Host.Sub|context.def(pybind11::init<>(),\"\")"}, {38, ".other.Host.Sub|context.def(pybind11::init<const::m::Host::Sub&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"a1", 0, {nullptr, "expose_here", "expose_here, expose_as(Ren)", "visible", "expose_as(Just)", "encourage", "hidden", "expose_here, hidden", "visible, expose_here"}, {
    {false, {}, {}},
    {false, {0, 1, 2, 3, 4, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29}, {{9, ".m|class<::n::A>(\"A1\")"}, {9, ".m.A1|class<::n::A::In>(\"In\")"}, {9, ".m.A1.In|enum<::n::A::In::Deep>(\"Deep\")"}, {9, ".m.A1|enum<::n::A::E>(\"E\")"}, {9, "|class<::n::B,::n::A>(\"B\")"}, {38, ".m.A1|context.def(pybind11::init<>(),\"\")"}, {38, ".m.A1|context.def(pybind11::init<const::n::A&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.A1|context.def(\"f\",pybind11::overload_cast<>(&::n::A::f),\"\")"}, {38, ".m.A1|context.def_readwrite_static(\"s\",&::n::A::s)"}, {38, ".m.A1.In|context.def(pybind11::init<>(),\"\")"}, {38, ".m.A1.In|context.def(pybind11::init<const::n::A::In&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.A1.In|context.def(\"m\",pybind11::overload_cast<>(&::n::A::In::m),\"\")"}, {38, ".m.A1.In.Deep|context.value(\"d1\",::n::A::In::Deep::d1)"}, {38, ".m.A1.In.Deep|context.value(\"d2\",::n::A::In::Deep::d2)"}, {38, ".m.A1.In.Deep|context.export_values()"}, {38, ".m.A1.E|context.value(\"x\",::n::A::E::x)"}, {38, ".B|context.def(pybind11::init<>(),\"\")"}, {38, ".B|context.def(pybind11::init<const::n::B&>(),\"\",pybind11::arg(\"\"))"}, {38, ".B|context.def_readwrite(\"y\",&::n::B::y)"}}},
    {false, {0, 1, 2, 3, 4, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29}, {{9, ".m|class<::n::A>(\"Ren\")"}, {9, ".m.Ren|class<::n::A::In>(\"In\")"}, {9, ".m.Ren.In|enum<::n::A::In::Deep>(\"Deep\")"}, {9, ".m.Ren|enum<::n::A::E>(\"E\")"}, {9, "|class<::n::B,::n::A>(\"B\")"}, {38, ".m.Ren|context.def(pybind11::init<>(),\"\")"}, {38, ".m.Ren|context.def(pybind11::init<const::n::A&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.Ren|context.def(\"f\",pybind11::overload_cast<>(&::n::A::f),\"\")"}, {38, ".m.Ren|context.def_readwrite_static(\"s\",&::n::A::s)"}, {38, ".m.Ren.In|context.def(pybind11::init<>(),\"\")"}, {38, ".m.Ren.In|context.def(pybind11::init<const::n::A::In&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.Ren.In|context.def(\"m\",pybind11::overload_cast<>(&::n::A::In::m),\"\")"}, {38, ".m.Ren.In.Deep|context.value(\"d1\",::n::A::In::Deep::d1)"}, {38, ".m.Ren.In.Deep|context.value(\"d2\",::n::A::In::Deep::d2)"}, {38, ".m.Ren.In.Deep|context.export_values()"}, {38, ".m.Ren.E|context.value(\"x\",::n::A::E::x)"}, {38, ".B|context.def(pybind11::init<>(),\"\")"}, {38, ".B|context.def(pybind11::init<const::n::B&>(),\"\",pybind11::arg(\"\"))"}, {38, ".B|context.def_readwrite(\"y\",&::n::B::y)"}}},
    {false, {}, {{38, ".m|context.attr(\"A1\")=::genpybind::getObjectForType<::n::A>()"}}},
    {false, {}, {{38, ".m|context.attr(\"Just\")=::genpybind::getObjectForType<::n::A>()"}}},
    {false, {}, {{38, ".m|context.attr(\"A1\")=::genpybind::getObjectForType<::n::A>()"}}},
    {false, {}, {}},
    {false, {0, 1, 2, 3, 4, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26}, {{0, "|class<::n::B>(\"B\")"}}},
    {false, {0, 1, 2, 3, 4, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29}, {{9, ".m|class<::n::A>(\"A1\")"}, {9, ".m.A1|class<::n::A::In>(\"In\")"}, {9, ".m.A1.In|enum<::n::A::In::Deep>(\"Deep\")"}, {9, ".m.A1|enum<::n::A::E>(\"E\")"}, {9, "|class<::n::B,::n::A>(\"B\")"}, {38, ".m.A1|context.def(pybind11::init<>(),\"\")"}, {38, ".m.A1|context.def(pybind11::init<const::n::A&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.A1|context.def(\"f\",pybind11::overload_cast<>(&::n::A::f),\"\")"}, {38, ".m.A1|context.def_readwrite_static(\"s\",&::n::A::s)"}, {38, ".m.A1.In|context.def(pybind11::init<>(),\"\")"}, {38, ".m.A1.In|context.def(pybind11::init<const::n::A::In&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.A1.In|context.def(\"m\",pybind11::overload_cast<>(&::n::A::In::m),\"\")"}, {38, ".m.A1.In.Deep|context.value(\"d1\",::n::A::In::Deep::d1)"}, {38, ".m.A1.In.Deep|context.value(\"d2\",::n::A::In::Deep::d2)"}, {38, ".m.A1.In.Deep|context.export_values()"}, {38, ".m.A1.E|context.value(\"x\",::n::A::E::x)"}, {38, ".B|context.def(pybind11::init<>(),\"\")"}, {38, ".B|context.def(pybind11::init<const::n::B&>(),\"\",pybind11::arg(\"\"))"}, {38, ".B|context.def_readwrite(\"y\",&::n::B::y)"}}}}},
  {"b1", 0, {nullptr, "expose_here", "encourage", "visible", "expose_here, encourage"}, {
    {false, {}, {}},
    {false, {4, 27, 28, 29}, {{9, ".m|class<::n::B,::n::A>(\"B1\")"}, {38, ".m.B1|context.def(pybind11::init<>(),\"\")"}, {38, ".m.B1|context.def(pybind11::init<const::n::B&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.B1|context.def_readwrite(\"y\",&::n::B::y)"}}},
    {false, {}, {{38, ".m|context.attr(\"B1\")=::genpybind::getObjectForType<::n::B>()"}}},
    {false, {}, {{38, ".m|context.attr(\"B1\")=::genpybind::getObjectForType<::n::B>()"}}},
    {true, {}, {}}}},
  {"hb1", 0, {"expose_here, visible(default)", nullptr, "expose_here", "expose_here, visible(true)", "encourage", "visible(default), expose_here", "expose_here, expose_as(default)", "encourage, hidden"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {{9, ".m|class<::n::HB>(\"HB1\")"}, {38, ".m.HB1|context.def(pybind11::init<>(),\"\")"}, {38, ".m.HB1|context.def(pybind11::init<const::n::HB&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.HB1|context.def_readwrite(\"hb\",&::n::HB::hb)"}}},
    {false, {}, {{9, ".m|class<::n::HB>(\"HB1\")"}, {38, ".m.HB1|context.def(pybind11::init<>(),\"\")"}, {38, ".m.HB1|context.def(pybind11::init<const::n::HB&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.HB1|context.def_readwrite(\"hb\",&::n::HB::hb)"}}},
    {false, {}, {{7, "|class<::n::HB>(\"HB\")"}, {35, ".HB|context.def(pybind11::init<>(),\"\")"}, {35, ".HB|context.def(pybind11::init<const::n::HB&>(),\"\",pybind11::arg(\"\"))"}, {35, ".HB|context.def_readwrite(\"hb\",&::n::HB::hb)"}, {38, ".m|context.attr(\"HB1\")=::genpybind::getObjectForType<::n::HB>()"}}},
    {false, {}, {}},
    {false, {}, {{9, ".m|class<::n::HB>(\"HB1\")"}, {38, ".m.HB1|context.def(pybind11::init<>(),\"\")"}, {38, ".m.HB1|context.def(pybind11::init<const::n::HB&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.HB1|context.def_readwrite(\"hb\",&::n::HB::hb)"}}},
    {false, {}, {{7, "|class<::n::HB>(\"HB\")"}, {35, ".HB|context.def(pybind11::init<>(),\"\")"}, {35, ".HB|context.def(pybind11::init<const::n::HB&>(),\"\",pybind11::arg(\"\"))"}, {35, ".HB|context.def_readwrite(\"hb\",&::n::HB::hb)"}}}}},
  {"c1", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {false, {5, 30, 31, 32}, {{9, ".m|class<::n::C>(\"C1\")"}, {38, ".m.C1|context.def(pybind11::init<>(),\"\")"}, {38, ".m.C1|context.def(pybind11::init<const::n::C&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.C1|context.def_readwrite(\"z\",&::n::C::z)"}}},
    {false, {}, {{38, ".m|context.attr(\"C1\")=::genpybind::getObjectForType<::n::C>()"}}}}},
  {"h1", 0, {nullptr, "expose_here", "encourage", "visible", "expose_here(true)", "encourage(true)"}, {
    {false, {}, {}},
    {false, {}, {{9, ".m|class<::hid::H>(\"H1\")"}, {9, ".m.H1|class<::hid::H::HI>(\"HI\")"}, {38, ".m.H1|context.def(pybind11::init<>(),\"\")"}, {38, ".m.H1|context.def(pybind11::init<const::hid::H&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.H1|context.def_readwrite(\"h\",&::hid::H::h)"}, {38, ".m.H1.HI|context.def(pybind11::init<>(),\"\")"}, {38, ".m.H1.HI|context.def(pybind11::init<const::hid::H::HI&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {{8, "|class<::hid::H>(\"H\")"}, {8, ".H|class<::hid::H::HI>(\"HI\")"}, {38, ".H|context.def(pybind11::init<>(),\"\")"}, {38, ".H|context.def(pybind11::init<const::hid::H&>(),\"\",pybind11::arg(\"\"))"}, {38, ".H|context.def_readwrite(\"h\",&::hid::H::h)"}, {38, ".H.HI|context.def(pybind11::init<>(),\"\")"}, {38, ".H.HI|context.def(pybind11::init<const::hid::H::HI&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m|context.attr(\"H1\")=::genpybind::getObjectForType<::hid::H>()"}}},
    {false, {}, {{38, ".m|context.attr(\"H1\")=::genpybind::getObjectForType<::hid::H>()"}}},
    {true, {}, {}},
    {true, {}, {}}}},
  {"he1", 0, {nullptr, "expose_here", "encourage"}, {
    {false, {}, {}},
    {false, {}, {{9, ".m|enum<::hid::HE>(\"HE1\")"}, {38, ".m.HE1|context.value(\"he\",::hid::HE::he)"}}},
    {false, {}, {{8, "|enum<::hid::HE>(\"HE\")"}, {38, ".HE|context.value(\"he\",::hid::HE::he)"}, {38, ".m|context.attr(\"HE1\")=::genpybind::getObjectForType<::hid::HE>()"}}}}},
  {"hi1", 0, {nullptr, "expose_here", "encourage"}, {
    {false, {}, {}},
    {false, {}, {{9, ".m|class<::hid::H::HI>(\"HI1\")"}, {38, ".m.HI1|context.def(pybind11::init<>(),\"\")"}, {38, ".m.HI1|context.def(pybind11::init<const::hid::H::HI&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {{38, ".m|context.attr(\"HI1\")=::genpybind::getObjectForType<::hid::H::HI>()"}}}}},
  {"hx", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{9, ".m|class<::hid::GENPYBIND_NS::X>(\"HX\")"}, {38, ".m.HX|context.def(pybind11::init<>(),\"\")"}, {38, ".m.HX|context.def(pybind11::init<const::hid::GENPYBIND_NS::X&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"t1", 0, {nullptr, "expose_here", "encourage", "visible"}, {
    {false, {}, {}},
    {false, {}, {{9, ".m|class<::n::Tp<int>>(\"T1\")"}, {9, ".m.T1|class<::n::Tp<int>::Nested>(\"Nested\")"}, {38, ".m.T1|context.def(pybind11::init<>(),\"\")"}, {38, ".m.T1|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.T1|context.def_readwrite(\"x\",&::n::Tp<int>::x)"}, {38, ".m.T1.Nested|context.def(pybind11::init<>(),\"\")"}, {38, ".m.T1.Nested|context.def(pybind11::init<const::n::Tp<int>::Nested&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.T1.Nested|context.def_readwrite(\"y\",&::n::Tp<int>::Nested::y)"}}},
    {false, {}, {{8, "|class<::n::Tp<int>>(\"Tp_int_\")"}, {8, ".Tp_int_|class<::n::Tp<int>::Nested>(\"Nested\")"}, {38, ".Tp_int_|context.def(pybind11::init<>(),\"\")"}, {38, ".Tp_int_|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))"}, {38, ".Tp_int_|context.def_readwrite(\"x\",&::n::Tp<int>::x)"}, {38, ".Tp_int_.Nested|context.def(pybind11::init<>(),\"\")"}, {38, ".Tp_int_.Nested|context.def(pybind11::init<const::n::Tp<int>::Nested&>(),\"\",pybind11::arg(\"\"))"}, {38, ".Tp_int_.Nested|context.def_readwrite(\"y\",&::n::Tp<int>::Nested::y)"}, {38, ".m|context.attr(\"T1\")=::genpybind::getObjectForType<::n::Tp<int>>()"}}},
    {false, {}, {{8, "|class<::n::Tp<int>>(\"Tp_int_\")"}, {8, ".Tp_int_|class<::n::Tp<int>::Nested>(\"Nested\")"}, {38, ".Tp_int_|context.def(pybind11::init<>(),\"\")"}, {38, ".Tp_int_|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))"}, {38, ".Tp_int_|context.def_readwrite(\"x\",&::n::Tp<int>::x)"}, {38, ".Tp_int_.Nested|context.def(pybind11::init<>(),\"\")"}, {38, ".Tp_int_.Nested|context.def(pybind11::init<const::n::Tp<int>::Nested&>(),\"\",pybind11::arg(\"\"))"}, {38, ".Tp_int_.Nested|context.def_readwrite(\"y\",&::n::Tp<int>::Nested::y)"}, {38, ".m|context.attr(\"T1\")=::genpybind::getObjectForType<::n::Tp<int>>()"}}}}},
  {"t2", 0, {nullptr, "expose_here", "encourage"}, {
    {false, {}, {}},
    {false, {}, {{9, ".m|class<::n::Tp<char>>(\"T2\")"}, {9, ".m.T2|class<::n::Tp<char>::Nested>(\"Nested\")"}, {38, ".m.T2|context.def(pybind11::init<>(),\"\")"}, {38, ".m.T2|context.def(pybind11::init<const::n::Tp<char>&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.T2|context.def_readwrite(\"x\",&::n::Tp<char>::x)"}, {38, ".m.T2.Nested|context.def(pybind11::init<>(),\"\")"}, {38, ".m.T2.Nested|context.def(pybind11::init<const::n::Tp<char>::Nested&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.T2.Nested|context.def_readwrite(\"y\",&::n::Tp<char>::Nested::y)"}}},
    {false, {}, {{8, "|class<::n::Tp<char>>(\"Tp_char_\")"}, {8, ".Tp_char_|class<::n::Tp<char>::Nested>(\"Nested\")"}, {38, ".Tp_char_|context.def(pybind11::init<>(),\"\")"}, {38, ".Tp_char_|context.def(pybind11::init<const::n::Tp<char>&>(),\"\",pybind11::arg(\"\"))"}, {38, ".Tp_char_|context.def_readwrite(\"x\",&::n::Tp<char>::x)"}, {38, ".Tp_char_.Nested|context.def(pybind11::init<>(),\"\")"}, {38, ".Tp_char_.Nested|context.def(pybind11::init<const::n::Tp<char>::Nested&>(),\"\",pybind11::arg(\"\"))"}, {38, ".Tp_char_.Nested|context.def_readwrite(\"y\",&::n::Tp<char>::Nested::y)"}, {38, ".m|context.attr(\"T2\")=::genpybind::getObjectForType<::n::Tp<char>>()"}}}}},
  {"t3", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{9, ".m|class<::n::Tp<long>>(\"T3\")"}, {9, ".m.T3|class<::n::Tp<long>::Nested>(\"Nested\")"}, {38, ".m.T3|context.def(pybind11::init<>(),\"\")"}, {38, ".m.T3|context.def(pybind11::init<const::n::Tp<long>&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.T3|context.def_readwrite(\"x\",&::n::Tp<long>::x)"}, {38, ".m.T3.Nested|context.def(pybind11::init<>(),\"\")"}, {38, ".m.T3.Nested|context.def(pybind11::init<const::n::Tp<long>::Nested&>(),\"\",pybind11::arg(\"\"))"}, {38, ".m.T3.Nested|context.def_readwrite(\"y\",&::n::Tp<long>::Nested::y)"}}}}},
  {"d1", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {2, 23, 24, 25}, {{9, ".m|enum<::n::A::In::Deep>(\"D1\")"}, {38, ".m.D1|context.value(\"d1\",::n::A::In::Deep::d1)"}, {38, ".m.D1|context.value(\"d2\",::n::A::In::Deep::d2)"}, {38, ".m.D1|context.export_values()"}}}}},
  {"elab", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {6, 33, 34}, {{9, ".m|enum<::n::G>(\"Elab\")"}, {38, ".m.Elab|context.value(\"g1\",::n::G::g1)"}, {38, ".m.Elab|context.export_values()"}}}}},
  {"hin", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {false, {1, 2, 20, 21, 22, 23, 24, 25}, {{10, ".m.Host|class<::n::A::In>(\"In\")"}, {10, ".m.Host.In|enum<::n::A::In::Deep>(\"Deep\")"}, {40, ".m.Host.In|context.def(pybind11::init<>(),\"\")"}, {40, ".m.Host.In|context.def(pybind11::init<const::n::A::In&>(),\"\",pybind11::arg(\"\"))"}, {40, ".m.Host.In|context.def(\"m\",pybind11::overload_cast<>(&::n::A::In::m),\"\")"}, {40, ".m.Host.In.Deep|context.value(\"d1\",::n::A::In::Deep::d1)"}, {40, ".m.Host.In.Deep|context.value(\"d2\",::n::A::In::Deep::d2)"}, {40, ".m.Host.In.Deep|context.export_values()"}}},
    {false, {}, {{40, ".m.Host|context.attr(\"In\")=::genpybind::getObjectForType<::n::A::In>()"}}}}},
  {"he", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {3, 26}, {{10, ".m.Host|enum<::n::A::E>(\"E\")"}, {40, ".m.Host.E|context.value(\"x\",::n::A::E::x)"}}}}},
  {"hdeep", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {5, 30, 31, 32}, {{11, ".m.Host.Sub|class<::n::C>(\"Deep\")"}, {42, ".m.Host.Sub.Deep|context.def(pybind11::init<>(),\"\")"}, {42, ".m.Host.Sub.Deep|context.def(pybind11::init<const::n::C&>(),\"\",pybind11::arg(\"\"))"}, {42, ".m.Host.Sub.Deep|context.def_readwrite(\"z\",&::n::C::z)"}}}}},
  {"vb1", 0, {nullptr, "expose_here", "expose_here, visible(default)", "visible(default)", "visible(default), expose_as(VX)", "encourage, visible(default)"}, {
    {false, {}, {}},
    {false, {7, 35, 36, 37}, {{11, "|class<::n::VB>(\"VB1\")"}, {42, ".VB1|context.def(pybind11::init<>(),\"\")"}, {42, ".VB1|context.def(pybind11::init<const::n::VB&>(),\"\",pybind11::arg(\"\"))"}, {42, ".VB1|context.def_readwrite(\"vb\",&::n::VB::vb)"}}},
    {false, {7, 35, 36, 37}, {}},
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"w1", 0, {"expose_here", nullptr, "expose_here, hidden"}, {
    {false, {}, {}},
    {false, {12, 45, 46}, {{12, "|class<::n::W>(\"W\")"}, {45, ".W|context.def(pybind11::init<>(),\"\")"}, {45, ".W|context.def(pybind11::init<const::n::W&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {12, 45, 46}, {}}}},
  {"w2", 0, {nullptr, "expose_here", "visible", "expose_here, expose_as(W1)", "encourage"}, {
    {false, {}, {}},
    {true, {}, {}},
    {false, {}, {{16, "|context.attr(\"W2\")=::genpybind::getObjectForType<::n::W>()"}}},
    {true, {}, {}},
    {false, {}, {{16, "|context.attr(\"W2\")=::genpybind::getObjectForType<::n::W>()"}}}}},
  {"w3", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {true, {}, {}},
    {false, {}, {{16, "|context.attr(\"W3\")=::genpybind::getObjectForType<::n::W>()"}}}}},
  {"lat", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {false, {11, 42, 43, 44}, {{14, ".Later2|class<::n::Later>(\"L\")"}, {49, ".Later2.L|context.def(pybind11::init<>(),\"\")"}, {49, ".Later2.L|context.def(pybind11::init<const::n::Later&>(),\"\",pybind11::arg(\"\"))"}, {49, ".Later2.L|context.def_readwrite(\"l\",&::n::Later::l)"}}},
    {false, {}, {{49, ".Later2|context.attr(\"L\")=::genpybind::getObjectForType<::n::Later>()"}}}}},
  {"ch1", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {false, {0, 1, 2, 3, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26}, {{0, "|class<::n::A>(\"Chain1\")"}, {0, ".Chain1|class<::n::A::In>(\"In\")"}, {0, ".Chain1.In|enum<::n::A::In::Deep>(\"Deep\")"}, {0, ".Chain1|enum<::n::A::E>(\"E\")"}, {16, ".Chain1|context.def(pybind11::init<>(),\"\")"}, {16, ".Chain1|context.def(pybind11::init<const::n::A&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Chain1|context.def(\"f\",pybind11::overload_cast<>(&::n::A::f),\"\")"}, {16, ".Chain1|context.def_readwrite_static(\"s\",&::n::A::s)"}, {16, ".Chain1.In|context.def(pybind11::init<>(),\"\")"}, {16, ".Chain1.In|context.def(pybind11::init<const::n::A::In&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Chain1.In|context.def(\"m\",pybind11::overload_cast<>(&::n::A::In::m),\"\")"}, {16, ".Chain1.In.Deep|context.value(\"d1\",::n::A::In::Deep::d1)"}, {16, ".Chain1.In.Deep|context.value(\"d2\",::n::A::In::Deep::d2)"}, {16, ".Chain1.In.Deep|context.export_values()"}, {16, ".Chain1.E|context.value(\"x\",::n::A::E::x)"}}},
    {false, {}, {{16, "|context.attr(\"Chain1\")=::genpybind::getObjectForType<::n::A>()"}}}}},
  {"ch2", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {0, 1, 2, 3, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26}, {{0, "|class<::n::A>(\"Chain2\")"}, {0, ".Chain2|class<::n::A::In>(\"In\")"}, {0, ".Chain2.In|enum<::n::A::In::Deep>(\"Deep\")"}, {0, ".Chain2|enum<::n::A::E>(\"E\")"}, {16, ".Chain2|context.def(pybind11::init<>(),\"\")"}, {16, ".Chain2|context.def(pybind11::init<const::n::A&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Chain2|context.def(\"f\",pybind11::overload_cast<>(&::n::A::f),\"\")"}, {16, ".Chain2|context.def_readwrite_static(\"s\",&::n::A::s)"}, {16, ".Chain2.In|context.def(pybind11::init<>(),\"\")"}, {16, ".Chain2.In|context.def(pybind11::init<const::n::A::In&>(),\"\",pybind11::arg(\"\"))"}, {16, ".Chain2.In|context.def(\"m\",pybind11::overload_cast<>(&::n::A::In::m),\"\")"}, {16, ".Chain2.In.Deep|context.value(\"d1\",::n::A::In::Deep::d1)"}, {16, ".Chain2.In.Deep|context.value(\"d2\",::n::A::In::Deep::d2)"}, {16, ".Chain2.In.Deep|context.export_values()"}, {16, ".Chain2.E|context.value(\"x\",::n::A::E::x)"}}}}},
  {"bad", 0, {nullptr, "expose_here", "visible", "encourage", "hidden"}, {
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {true, {}, {}}}},
  {"bad2", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}}}},
  {"bad3", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {true, {}, {}}}},
  {"bad4", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {true, {}, {}}}},
  {"me", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {true, {}, {}},
    {false, {}, {{51, ".Own|context.attr(\"Me\")=::genpybind::getObjectForType<::n::Own>()"}}}}},
  {"up", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {true, {}, {}},
    {false, {}, {{53, ".Own.Inner|context.attr(\"Up\")=::genpybind::getObjectForType<::n::Own>()"}}}}},
}};
RegE R0({"C09.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); if (!r.exit_code) setUpOrder(model(r)); }});
} // namespace
