// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace a GENPYBIND(__sel_a1) { void f1(); struct A1 {}; }
namespace b { void b1(); }
namespace a GENPYBIND(__sel_a2) { void f2(); struct A2 : A1 { void m(); }; }
namespace b GENPYBIND(__sel_b2) { void b2() GENPYBIND(visible); }
namespace o { namespace in GENPYBIND(__sel_in1) { void g1() GENPYBIND(visible); } }
namespace o { namespace in GENPYBIND(__sel_in2) { void g2() GENPYBIND(visible); enum GENPYBIND(visible) E { e }; } }
namespace o { namespace in GENPYBIND(__sel_in3) { struct GENPYBIND(visible) T {}; } }
namespace r GENPYBIND(__sel_r1) { void h1(); }
namespace r GENPYBIND(__sel_r2) { void h2(); }
extern "C++" { namespace l GENPYBIND(__sel_l1) { void l1(); } }
namespace l GENPYBIND(__sel_l2) { void l2(); extern "C" { namespace l3 { void l3(); } } }
namespace l GENPYBIND(__sel_l4) { namespace l3 GENPYBIND(__sel_l5) { void l4(); } }
namespace sep { namespace a GENPYBIND(__sel_sa) { void other() GENPYBIND(visible); } inline namespace i GENPYBIND(__sel_i1) { void i1(); } inline namespace i GENPYBIND(__sel_i2) { void i2() GENPYBIND(visible); } }
)zoo";
const Zoo Z0{{
  "|class<::a::A1>(\"A1\")",
  "|class<::a::A2,::a::A1>(\"A2\")",
  "|submodule<>(\"in\")",
  ".in|enum<::o::in::E>(\"E\")",
  ".in|class<::o::in::T>(\"T\")",
  "|context.def(\"f1\",pybind11::overload_cast<>(&::a::f1),\"\")",
  "|context.def(\"f2\",pybind11::overload_cast<>(&::a::f2),\"\")",
  ".A1|context.def(pybind11::init<>(),\"\")",
  ".A1|context.def(pybind11::init<const::a::A1&>(),\"\",pybind11::arg(\"\"))",
  "|context.def(\"b2\",pybind11::overload_cast<>(&::b::b2),\"\")",
  ".A2|context.def(pybind11::init<>(),\"\")",
  ".A2|context.def(pybind11::init<const::a::A2&>(),\"\",pybind11::arg(\"\"))",
  ".A2|context.def(\"m\",pybind11::overload_cast<>(&::a::A2::m),\"\")",
  ".in|context.def(\"g1\",pybind11::overload_cast<>(&::o::in::g1),\"\")",
  ".in|context.def(\"g2\",pybind11::overload_cast<>(&::o::in::g2),\"\")",
  ".in.E|context.value(\"e\",::o::in::E::e)",
  ".in.E|context.export_values()",
  ".in.T|context.def(pybind11::init<>(),\"\")",
  ".in.T|context.def(pybind11::init<const::o::in::T&>(),\"\",pybind11::arg(\"\"))",
  "|context.def(\"h1\",pybind11::overload_cast<>(&::r::h1),\"\")",
  "|context.def(\"h2\",pybind11::overload_cast<>(&::r::h2),\"\")",
  "|context.def(\"l1\",pybind11::overload_cast<>(&::l::l1),\"\")",
  "|context.def(\"l2\",pybind11::overload_cast<>(&::l::l2),\"\")",
  "|context.def(\"l3\",pybind11::overload_cast<>(&::l::l3::l3),\"\")",
  "|context.def(\"l4\",pybind11::overload_cast<>(&::l::l3::l4),\"\")",
  "|context.def(\"other\",pybind11::overload_cast<>(&::sep::a::other),\"\")",
  "|context.def(\"i2\",pybind11::overload_cast<>(&::sep::i2),\"\")"
}, {
  {"a1", 0, {"visible", nullptr, "visible, module", "hidden", "module", "visible(true)", "visible, expose_as(x)", "visible, only_expose_in(example)"}, {
    {false, {}, {}},
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}}}},
  {"a2", 0, {"visible", nullptr, "visible, module", "hidden", "module(a), visible", "visible, visible", "visible(true)", "visible, only_expose_in(other)"}, {
    {false, {}, {}},
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {false, {}, {}},
    {false, {}, {}},
    {true, {}, {}}}},
  {"b2", 0, {nullptr, "visible", "module", "hidden", "visible(default)"}, {
    {false, {}, {}},
    {false, {}, {{9, "|context.def(\"b1\",pybind11::overload_cast<>(&::b::b1),\"\")"}}},
    {false, {9}, {{1, "|submodule<>(\"b\")"}, {9, ".b|context.def(\"b2\",pybind11::overload_cast<>(&::b::b2),\"\")"}}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"in1", 0, {"module", nullptr, "module(in)", "module(q)", "visible"}, {
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {true, {}, {}}}},
  {"in2", 0, {"module", nullptr, "module(in)", "module, visible"}, {
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {true, {}, {}}}},
  {"in3", 0, {"module", nullptr, "module, module(in)"}, {
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}}}},
  {"r1", 0, {"only_expose_in(example), visible", "only_expose_in(example, other), visible", "only_expose_in(other), visible", "visible", "only_expose_in(\"example\"), visible"}, {
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {false, {}, {}}}},
  {"r2", 0, {"only_expose_in(example), visible", "only_expose_in(other, example), visible", "only_expose_in(example), only_expose_in(other), visible", "only_expose_in(example)", "visible, only_expose_in(example)"}, {
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {true, {}, {}},
    {false, {}, {}}}},
  {"l1", 0, {"visible", "module, visible"}, {
    {false, {}, {}},
    {true, {}, {}}}},
  {"l2", 0, {"visible", "hidden", "visible, expose_as(l)"}, {
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}}}},
  {"l4", 0, {"visible", nullptr}, {
    {false, {}, {}},
    {false, {}, {}}}},
  {"l5", 0, {nullptr, "visible", "hidden", "module"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {23, 24}, {}},
    {false, {23, 24}, {{5, "|submodule<>(\"l3\")"}, {23, ".l3|context.def(\"l3\",pybind11::overload_cast<>(&::l::l3::l3),\"\")"}, {23, ".l3|context.def(\"l4\",pybind11::overload_cast<>(&::l::l3::l4),\"\")"}}}}},
  {"sa", 0, {nullptr, "module", "visible"}, {
    {false, {}, {}},
    {false, {25}, {{5, "|submodule<>(\"a\")"}, {25, ".a|context.def(\"other\",pybind11::overload_cast<>(&::sep::a::other),\"\")"}}},
    {false, {}, {}}}},
  {"i1", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {true, {}, {}}}},
  {"i2", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{26, "|context.def(\"i1\",pybind11::overload_cast<>(&::sep::i1),\"\")"}}}}},
}};
RegE R0({"C24.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
