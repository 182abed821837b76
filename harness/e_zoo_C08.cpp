// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct Leaf; struct Far; struct R2; struct Dia; struct Dia2;
struct R1 { using D1 GENPYBIND(__sel_d1) = R2; using D2 GENPYBIND(__sel_d2) = Dia; struct In {}; enum E1 { e1 }; };
struct R2 : R1 {};
struct R3 { struct In2 : R2 {}; };
struct GENPYBIND(__sel_leaf) Leaf : R3::In2, virtual R3 {};
template <typename T> struct Crtp { T *p; };
struct Self : Crtp<Self> {};
template <typename T> struct Mix : T { struct Nest : T {}; };
template struct GENPYBIND(visible) Mix<R1>;
template struct GENPYBIND(__sel_mix) Mix<Leaf>;
struct User : Mix<Leaf> {};
struct User2 : Mix<R1>::Nest {};
struct GENPYBIND(__sel_hid) Hid : Leaf { struct Under {}; };
struct Via : Hid {};
struct Priv : private R1, protected R2, R3 {};
struct Dia1 : virtual R1 { using D3 GENPYBIND(__sel_d3) = Dia; using D4 GENPYBIND(__sel_d4) = Dia2; }; struct Dia2 : virtual R1 {}; struct Dia : Dia2, Dia1 {};
}
namespace m1 GENPYBIND(module) {
using A1 GENPYBIND(__sel_a1) = n::R1;
struct GENPYBIND(visible) Sub : n::R2 { using A2 GENPYBIND(__sel_a2) = n::R3; };
using A3 GENPYBIND(__sel_a3) = n::Leaf;
using A4 GENPYBIND(__sel_a4) = n::R1::In;
using A5 GENPYBIND(__sel_a5) = n::R3::In2;
using A6 GENPYBIND(__sel_a6) = n::Mix<n::R2>;
using A7 GENPYBIND(__sel_a7) = n::Crtp<n::Self>;
}
namespace m2 GENPYBIND(module) {
struct GENPYBIND(visible) P : m1::Sub { using B1 GENPYBIND(__sel_b1) = n::Dia1; using B2 GENPYBIND(__sel_b2) = n::R1::E1; };
using B3 GENPYBIND(__sel_b3) = m1::Sub;
struct GENPYBIND(visible) Q : n::User2 { using B4 GENPYBIND(__sel_b4) = n::Hid; };
namespace m3 GENPYBIND(__sel_m3) { using B5 GENPYBIND(__sel_b5) = n::Dia; using B6 GENPYBIND(__sel_b6) = m1::Sub; }
}
struct GENPYBIND(visible) Top : n::R1 { using C1 GENPYBIND(__sel_c1) = n::R2; using C2 GENPYBIND(__sel_c2) = n::R1; };
namespace q GENPYBIND(visible) {
struct A1 {}; struct B1 : private A1 { using X GENPYBIND(__sel_qx1) = A1; };
struct A2 {}; struct GENPYBIND(hide_base("A2")) B2 : A2 { using X GENPYBIND(__sel_qx2) = A2; };
struct A3 {}; struct GENPYBIND(hidden) M3 : A3 {}; struct B3 : M3 { using X GENPYBIND(__sel_qx3) = A3; };
struct A4 {}; struct M4 : protected A4 {}; struct GENPYBIND(inline_base("M4")) B4 : M4 { using X GENPYBIND(__sel_qx4) = A4; };
struct A5 {}; struct GENPYBIND(hidden, hide_base("A5")) M5 : A5 {}; struct GENPYBIND(inline_base("M5")) B5 : M5 { using X GENPYBIND(__sel_qx5) = A5; };
struct A6 {}; struct GENPYBIND(hidden) M6 : A6 {}; struct GENPYBIND(inline_base("M6")) B6 : M6 { using X GENPYBIND(__sel_qx6) = A6; };
}
)zoo";
const Zoo Z0{{
  "|class<::n::R1>(\"R1\")",
  ".R1|class<::n::R1::In>(\"In\")",
  ".R1|enum<::n::R1::E1>(\"E1\")",
  "|class<::n::R2,::n::R1>(\"R2\")",
  "|class<::n::R3>(\"R3\")",
  ".R3|class<::n::R3::In2,::n::R2>(\"In2\")",
  "|class<::n::Leaf,::n::R3::In2,::n::R3>(\"Leaf\")",
  "|class<::n::Crtp<::n::Self>>(\"Crtp_n_Self_\")",
  "|class<::n::Self,::n::Crtp<::n::Self>>(\"Self\")",
  "|class<::n::Mix<::n::R1>,::n::R1>(\"Mix_n_R1_\")",
  ".Mix_n_R1_|class<::n::Mix<::n::R1>::Nest,::n::R1>(\"Nest\")",
  "|class<::n::Mix<::n::Leaf>,::n::Leaf>(\"Mix_n_Leaf_\")",
  ".Mix_n_Leaf_|class<::n::Mix<::n::Leaf>::Nest,::n::Leaf>(\"Nest\")",
  "|class<::n::User,::n::Mix<::n::Leaf>>(\"User\")",
  "|class<::n::User2,::n::Mix<::n::R1>::Nest>(\"User2\")",
  "|class<::n::Hid,::n::Leaf>(\"Hid\")",
  ".Hid|class<::n::Hid::Under>(\"Under\")",
  "|class<::n::Via,::n::Hid>(\"Via\")",
  "|class<::n::Priv,::n::R3>(\"Priv\")",
  "|class<::n::Dia1,::n::R1>(\"Dia1\")",
  "|class<::n::Dia2,::n::R1>(\"Dia2\")",
  "|class<::n::Dia,::n::Dia2,::n::Dia1>(\"Dia\")",
  "|submodule<>(\"m1\")",
  ".m1|class<::m1::Sub,::n::R2>(\"Sub\")",
  "|submodule<>(\"m2\")",
  ".m2|class<::m2::P,::m1::Sub>(\"P\")",
  ".m2|class<::m2::Q,::n::User2>(\"Q\")",
  "|class<::Top,::n::R1>(\"Top\")",
  "|class<::q::A1>(\"A1\")",
  "|class<::q::B1>(\"B1\")",
  "|class<::q::A2>(\"A2\")",
  "|class<::q::B2>(\"B2\")",
  "|class<::q::A3>(\"A3\")",
  "|class<::q::B3>(\"B3\")",
  "|class<::q::A4>(\"A4\")",
  "|class<::q::M4>(\"M4\")",
  "|class<::q::B4>(\"B4\")",
  "|class<::q::A5>(\"A5\")",
  "|class<::q::B5>(\"B5\")",
  "|class<::q::A6>(\"A6\")",
  "|class<::q::B6,::q::A6>(\"B6\")",
  ".R1|context.def(pybind11::init<>(),\"\")",
  ".R1|context.def(pybind11::init<const::n::R1&>(),\"\",pybind11::arg(\"\"))",
  ".R1.In|context.def(pybind11::init<>(),\"\")",
  ".R1.In|context.def(pybind11::init<const::n::R1::In&>(),\"\",pybind11::arg(\"\"))",
  ".R1.E1|context.value(\"e1\",::n::R1::E1::e1)",
  ".R1.E1|context.export_values()",
  ".R2|context.def(pybind11::init<>(),\"\")",
  ".R2|context.def(pybind11::init<const::n::R2&>(),\"\",pybind11::arg(\"\"))",
  ".R3|context.def(pybind11::init<>(),\"\")",
  ".R3|context.def(pybind11::init<const::n::R3&>(),\"\",pybind11::arg(\"\"))",
  ".R3.In2|context.def(pybind11::init<>(),\"\")",
  ".R3.In2|context.def(pybind11::init<const::n::R3::In2&>(),\"\",pybind11::arg(\"\"))",
  ".Leaf|context.def(pybind11::init<>(),\"\")",
  ".Leaf|context.def(pybind11::init<const::n::Leaf&>(),\"\",pybind11::arg(\"\"))",
  ".Crtp_n_Self_|context.def(pybind11::init<>(),\"\")",
  ".Crtp_n_Self_|context.def(pybind11::init<const::n::Crtp<::n::Self>&>(),\"\",pybind11::arg(\"\"))",
  ".Crtp_n_Self_|context.def_readwrite(\"p\",&::n::Crtp<n::Self>::p)",
  ".Self|context.def(pybind11::init<>(),\"\")",
  ".Self|context.def(pybind11::init<const::n::Self&>(),\"\",pybind11::arg(\"\"))",
  ".Mix_n_R1_|context.def(pybind11::init<>(),\"\")",
  ".Mix_n_R1_|context.def(pybind11::init<const::n::Mix<::n::R1>&>(),\"\",pybind11::arg(\"\"))",
  ".Mix_n_R1_.Nest|context.def(pybind11::init<>(),\"\")",
  ".Mix_n_R1_.Nest|context.def(pybind11::init<const::n::Mix<::n::R1>::Nest&>(),\"\",pybind11::arg(\"\"))",
  ".Mix_n_Leaf_|context.def(pybind11::init<>(),\"\")",
  ".Mix_n_Leaf_|context.def(pybind11::init<const::n::Mix<::n::Leaf>&>(),\"\",pybind11::arg(\"\"))",
  ".Mix_n_Leaf_.Nest|context.def(pybind11::init<>(),\"\")",
  ".Mix_n_Leaf_.Nest|context.def(pybind11::init<const::n::Mix<::n::Leaf>::Nest&>(),\"\",pybind11::arg(\"\"))",
  ".User|context.def(pybind11::init<>(),\"\")",
  ".User|context.def(pybind11::init<const::n::User&>(),\"\",pybind11::arg(\"\"))",
  ".User2|context.def(pybind11::init<>(),\"\")",
  ".User2|context.def(pybind11::init<const::n::User2&>(),\"\",pybind11::arg(\"\"))",
  ".Hid|context.def(pybind11::init<>(),\"\")",
  ".Hid|context.def(pybind11::init<const::n::Hid&>(),\"\",pybind11::arg(\"\"))",
  ".Hid.Under|context.def(pybind11::init<>(),\"\")",
  ".Hid.Under|context.def(pybind11::init<const::n::Hid::Under&>(),\"\",pybind11::arg(\"\"))",
  ".Via|context.def(pybind11::init<>(),\"\")",
  ".Via|context.def(pybind11::init<const::n::Via&>(),\"\",pybind11::arg(\"\"))",
  ".Priv|context.def(pybind11::init<>(),\"\")",
  ".Priv|context.def(pybind11::init<const::n::Priv&>(),\"\",pybind11::arg(\"\"))",
  ".Dia1|context.def(pybind11::init<>(),\"\")",
  ".Dia1|context.def(pybind11::init<const::n::Dia1&>(),\"\",pybind11::arg(\"\"))",
  ".Dia2|context.def(pybind11::init<>(),\"\")",
  ".Dia2|context.def(pybind11::init<const::n::Dia2&>(),\"\",pybind11::arg(\"\"))",
  ".Dia|context.def(pybind11::init<>(),\"\")",
  ".Dia|context.def(pybind11::init<const::n::Dia&>(),\"\",pybind11::arg(\"\"))",
  ".m1.Sub|context.def(pybind11::init<>(),\"\")",
  ".m1.Sub|context.def(pybind11::init<const::m1::Sub&>(),\"\",pybind11::arg(\"\"))",
  ".m2.P|context.def(pybind11::init<>(),\"\")",
  ".m2.P|context.def(pybind11::init<const::m2::P&>(),\"\",pybind11::arg(\"\"))",
  ".m2.Q|context.def(pybind11::init<>(),\"\")",
  ".m2.Q|context.def(pybind11::init<const::m2::Q&>(),\"\",pybind11::arg(\"\"))",
  ".Top|context.def(pybind11::init<>(),\"\")",
  ".Top|context.def(pybind11::init<const::Top&>(),\"\",pybind11::arg(\"\"))",
  ".A1|context.def(pybind11::init<>(),\"\")",
  ".A1|context.def(pybind11::init<const::q::A1&>(),\"\",pybind11::arg(\"\"))",
  ".B1|context.def(pybind11::init<>(),\"\")",
  ".B1|context.def(pybind11::init<const::q::B1&>(),\"\",pybind11::arg(\"\"))",
  ".A2|context.def(pybind11::init<>(),\"\")",
  ".A2|context.def(pybind11::init<const::q::A2&>(),\"\",pybind11::arg(\"\"))",
  ".B2|context.def(pybind11::init<>(),\"\")",
  ".B2|context.def(pybind11::init<const::q::B2&>(),\"\",pybind11::arg(\"\"))",
  ".A3|context.def(pybind11::init<>(),\"\")",
  ".A3|context.def(pybind11::init<const::q::A3&>(),\"\",pybind11::arg(\"\"))",
  ".B3|context.def(pybind11::init<>(),\"\")",
  ".B3|context.def(pybind11::init<const::q::B3&>(),\"\",pybind11::arg(\"\"))",
  ".A4|context.def(pybind11::init<>(),\"\")",
  ".A4|context.def(pybind11::init<const::q::A4&>(),\"\",pybind11::arg(\"\"))",
  ".M4|context.def(pybind11::init<>(),\"\")",
  ".M4|context.def(pybind11::init<const::q::M4&>(),\"\",pybind11::arg(\"\"))",
  ".B4|context.def(pybind11::init<>(),\"\")",
  ".B4|context.def(pybind11::init<const::q::B4&>(),\"\",pybind11::arg(\"\"))",
  ".A5|context.def(pybind11::init<>(),\"\")",
  ".A5|context.def(pybind11::init<const::q::A5&>(),\"\",pybind11::arg(\"\"))",
  ".B5|context.def(pybind11::init<>(),\"\")",
  ".B5|context.def(pybind11::init<const::q::B5&>(),\"\",pybind11::arg(\"\"))",
  ".A6|context.def(pybind11::init<>(),\"\")",
  ".A6|context.def(pybind11::init<const::q::A6&>(),\"\",pybind11::arg(\"\"))",
  ".B6|context.def(pybind11::init<>(),\"\")",
  ".B6|context.def(pybind11::init<const::q::B6&>(),\"\",pybind11::arg(\"\"))"
}, {
  {"d1", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {false, {3, 47, 48}, {{3, ".R1|class<::n::R2,::n::R1>(\"D1\")"}, {47, ".R1.D1|context.def(pybind11::init<>(),\"\")"}, {47, ".R1.D1|context.def(pybind11::init<const::n::R2&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {{43, ".R1|context.attr(\"D1\")=::genpybind::getObjectForType<::n::R2>()"}}}}},
  {"d2", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {21, 84, 85}, {{21, ".R1|class<::n::Dia,::n::Dia2,::n::Dia1>(\"D2\")"}, {84, ".R1.D2|context.def(pybind11::init<>(),\"\")"}, {84, ".R1.D2|context.def(pybind11::init<const::n::Dia&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"leaf", 0, {nullptr, "hide_base(R2)", "inline_base(R3)", "hide_base", "hide_base(R3)", "inline_base(\"R3::In2\")", "inline_base(\"R3::In2\", R2)", "inline_base"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {6}, {{6, "|class<::n::Leaf,::n::R3::In2>(\"Leaf\")"}}},
    {false, {6}, {{6, "|class<::n::Leaf>(\"Leaf\")"}}},
    {false, {6}, {{6, "|class<::n::Leaf,::n::R3::In2>(\"Leaf\")"}}},
    {false, {6}, {{6, "|class<::n::Leaf,::n::R2,::n::R3>(\"Leaf\")"}}},
    {false, {6}, {{6, "|class<::n::Leaf,::n::R1,::n::R3>(\"Leaf\")"}}},
    {false, {6}, {{6, "|class<::n::Leaf>(\"Leaf\")"}}}}},
  {"mix", 0, {"visible", "hidden"}, {
    {false, {}, {}},
    {false, {11, 12, 13, 64, 65, 66, 67}, {{11, "|class<::n::User>(\"User\")"}}}}},
  {"hid", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {15, 16, 17, 72, 73, 74, 75}, {{15, "|class<::n::Via>(\"Via\")"}}}}},
  {"d3", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {21, 84, 85}, {{21, ".Dia1|class<::n::Dia,::n::Dia2,::n::Dia1>(\"D3\")"}, {84, ".Dia1.D3|context.def(pybind11::init<>(),\"\")"}, {84, ".Dia1.D3|context.def(pybind11::init<const::n::Dia&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"d4", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {20, 82, 83}, {{20, ".Dia1|class<::n::Dia2,::n::R1>(\"D4\")"}, {82, ".Dia1.D4|context.def(pybind11::init<>(),\"\")"}, {82, ".Dia1.D4|context.def(pybind11::init<const::n::Dia2&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"a1", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {false, {0, 1, 2, 4, 7, 8, 18, 22, 41, 42, 43, 44, 45, 46, 47, 48, 51, 52, 53, 54, 78, 79}, {{0, "|class<::n::R3>(\"R3\")"}, {0, "|class<::n::Crtp<::n::Self>>(\"Crtp_n_Self_\")"}, {0, "|class<::n::Self,::n::Crtp<::n::Self>>(\"Self\")"}, {0, "|class<::n::Priv,::n::R3>(\"Priv\")"}, {0, "|submodule<>(\"m1\")"}, {0, ".m1|class<::n::R1>(\"A1\")"}, {0, ".m1.A1|class<::n::R1::In>(\"In\")"}, {0, ".m1.A1|enum<::n::R1::E1>(\"E1\")"}, {60, ".Priv|context.def(pybind11::init<>(),\"\")"}, {60, ".Priv|context.def(pybind11::init<const::n::Priv&>(),\"\",pybind11::arg(\"\"))"}, {60, ".m1.A1|context.def(pybind11::init<>(),\"\")"}, {60, ".m1.A1|context.def(pybind11::init<const::n::R1&>(),\"\",pybind11::arg(\"\"))"}, {60, ".m1.A1.In|context.def(pybind11::init<>(),\"\")"}, {60, ".m1.A1.In|context.def(pybind11::init<const::n::R1::In&>(),\"\",pybind11::arg(\"\"))"}, {60, ".m1.A1.E1|context.value(\"e1\",::n::R1::E1::e1)"}, {60, ".m1.A1.E1|context.export_values()"}, {60, ".R2|context.def(pybind11::init<>(),\"\")"}, {60, ".R2|context.def(pybind11::init<const::n::R2&>(),\"\",pybind11::arg(\"\"))"}, {60, ".R3.In2|context.def(pybind11::init<>(),\"\")"}, {60, ".R3.In2|context.def(pybind11::init<const::n::R3::In2&>(),\"\",pybind11::arg(\"\"))"}, {60, ".Leaf|context.def(pybind11::init<>(),\"\")"}, {60, ".Leaf|context.def(pybind11::init<const::n::Leaf&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {{86, ".m1|context.attr(\"A1\")=::genpybind::getObjectForType<::n::R1>()"}}}}},
  {"a2", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {4, 5, 6, 11, 12, 13, 15, 16, 17, 18, 49, 50, 51, 52, 53, 54, 70, 71, 80, 81, 82, 83, 84, 85, 86, 87}, {{24, ".m1.Sub|class<::n::R3>(\"A2\")"}, {24, ".m1.Sub.A2|class<::n::R3::In2,::n::R2>(\"In2\")"}, {24, "|class<::n::Leaf,::n::R3::In2,::n::R3>(\"Leaf\")"}, {24, "|class<::n::Mix<::n::Leaf>,::n::Leaf>(\"Mix_n_Leaf_\")"}, {24, ".Mix_n_Leaf_|class<::n::Mix<::n::Leaf>::Nest,::n::Leaf>(\"Nest\")"}, {24, "|class<::n::User,::n::Mix<::n::Leaf>>(\"User\")"}, {24, "|class<::n::Hid,::n::Leaf>(\"Hid\")"}, {24, ".Hid|class<::n::Hid::Under>(\"Under\")"}, {24, "|class<::n::Via,::n::Hid>(\"Via\")"}, {24, "|class<::n::Priv,::n::R3>(\"Priv\")"}, {64, ".User2|context.def(pybind11::init<>(),\"\")"}, {64, ".User2|context.def(pybind11::init<const::n::User2&>(),\"\",pybind11::arg(\"\"))"}, {64, ".Dia1|context.def(pybind11::init<>(),\"\")"}, {64, ".Dia1|context.def(pybind11::init<const::n::Dia1&>(),\"\",pybind11::arg(\"\"))"}, {64, ".Dia2|context.def(pybind11::init<>(),\"\")"}, {64, ".Dia2|context.def(pybind11::init<const::n::Dia2&>(),\"\",pybind11::arg(\"\"))"}, {64, ".Dia|context.def(pybind11::init<>(),\"\")"}, {64, ".Dia|context.def(pybind11::init<const::n::Dia&>(),\"\",pybind11::arg(\"\"))"}, {64, ".m1.Sub|context.def(pybind11::init<>(),\"\")"}, {64, ".m1.Sub|context.def(pybind11::init<const::m1::Sub&>(),\"\",pybind11::arg(\"\"))"}, {64, ".m1.Sub.A2|context.def(pybind11::init<>(),\"\")"}, {64, ".m1.Sub.A2|context.def(pybind11::init<const::n::R3&>(),\"\",pybind11::arg(\"\"))"}, {64, ".m1.Sub.A2.In2|context.def(pybind11::init<>(),\"\")"}, {64, ".m1.Sub.A2.In2|context.def(pybind11::init<const::n::R3::In2&>(),\"\",pybind11::arg(\"\"))"}, {64, ".Leaf|context.def(pybind11::init<>(),\"\")"}, {64, ".Leaf|context.def(pybind11::init<const::n::Leaf&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"a3", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {6, 11, 12, 13, 15, 16, 17, 53, 54, 64, 65, 66, 67, 68, 69, 72, 73, 74, 75, 76, 77}, {{23, ".m1|class<::n::Leaf,::n::R3::In2,::n::R3>(\"A3\")"}, {23, "|class<::n::Mix<::n::Leaf>,::n::Leaf>(\"Mix_n_Leaf_\")"}, {23, ".Mix_n_Leaf_|class<::n::Mix<::n::Leaf>::Nest,::n::Leaf>(\"Nest\")"}, {23, "|class<::n::User,::n::Mix<::n::Leaf>>(\"User\")"}, {23, "|class<::n::Hid,::n::Leaf>(\"Hid\")"}, {23, ".Hid|class<::n::Hid::Under>(\"Under\")"}, {23, "|class<::n::Via,::n::Hid>(\"Via\")"}, {86, ".m1.A3|context.def(pybind11::init<>(),\"\")"}, {86, ".m1.A3|context.def(pybind11::init<const::n::Leaf&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Mix_n_Leaf_|context.def(pybind11::init<>(),\"\")"}, {86, ".Mix_n_Leaf_|context.def(pybind11::init<const::n::Mix<::n::Leaf>&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Mix_n_Leaf_.Nest|context.def(pybind11::init<>(),\"\")"}, {86, ".Mix_n_Leaf_.Nest|context.def(pybind11::init<const::n::Mix<::n::Leaf>::Nest&>(),\"\",pybind11::arg(\"\"))"}, {86, ".User|context.def(pybind11::init<>(),\"\")"}, {86, ".User|context.def(pybind11::init<const::n::User&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Hid|context.def(pybind11::init<>(),\"\")"}, {86, ".Hid|context.def(pybind11::init<const::n::Hid&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Hid.Under|context.def(pybind11::init<>(),\"\")"}, {86, ".Hid.Under|context.def(pybind11::init<const::n::Hid::Under&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Via|context.def(pybind11::init<>(),\"\")"}, {86, ".Via|context.def(pybind11::init<const::n::Via&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"a4", 0, {nullptr, "expose_here", "visible"}, {
    {false, {}, {}},
    {false, {1, 43, 44}, {{23, ".m1|class<::n::R1::In>(\"A4\")"}, {86, ".m1.A4|context.def(pybind11::init<>(),\"\")"}, {86, ".m1.A4|context.def(pybind11::init<const::n::R1::In&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {{86, ".m1|context.attr(\"A4\")=::genpybind::getObjectForType<::n::R1::In>()"}}}}},
  {"a5", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {5, 6, 11, 12, 13, 15, 16, 17, 51, 52, 53, 54, 64, 65, 66, 67, 68, 69, 72, 73, 74, 75, 76, 77}, {{23, ".m1|class<::n::R3::In2,::n::R2>(\"A5\")"}, {23, "|class<::n::Leaf,::n::R3::In2,::n::R3>(\"Leaf\")"}, {23, "|class<::n::Mix<::n::Leaf>,::n::Leaf>(\"Mix_n_Leaf_\")"}, {23, ".Mix_n_Leaf_|class<::n::Mix<::n::Leaf>::Nest,::n::Leaf>(\"Nest\")"}, {23, "|class<::n::User,::n::Mix<::n::Leaf>>(\"User\")"}, {23, "|class<::n::Hid,::n::Leaf>(\"Hid\")"}, {23, ".Hid|class<::n::Hid::Under>(\"Under\")"}, {23, "|class<::n::Via,::n::Hid>(\"Via\")"}, {86, ".m1.A5|context.def(pybind11::init<>(),\"\")"}, {86, ".m1.A5|context.def(pybind11::init<const::n::R3::In2&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Leaf|context.def(pybind11::init<>(),\"\")"}, {86, ".Leaf|context.def(pybind11::init<const::n::Leaf&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Mix_n_Leaf_|context.def(pybind11::init<>(),\"\")"}, {86, ".Mix_n_Leaf_|context.def(pybind11::init<const::n::Mix<::n::Leaf>&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Mix_n_Leaf_.Nest|context.def(pybind11::init<>(),\"\")"}, {86, ".Mix_n_Leaf_.Nest|context.def(pybind11::init<const::n::Mix<::n::Leaf>::Nest&>(),\"\",pybind11::arg(\"\"))"}, {86, ".User|context.def(pybind11::init<>(),\"\")"}, {86, ".User|context.def(pybind11::init<const::n::User&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Hid|context.def(pybind11::init<>(),\"\")"}, {86, ".Hid|context.def(pybind11::init<const::n::Hid&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Hid.Under|context.def(pybind11::init<>(),\"\")"}, {86, ".Hid.Under|context.def(pybind11::init<const::n::Hid::Under&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Via|context.def(pybind11::init<>(),\"\")"}, {86, ".Via|context.def(pybind11::init<const::n::Via&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"a6", 0, {nullptr, "expose_here", "encourage"}, {
    {false, {}, {}},
    {false, {}, {{23, ".m1|class<::n::Mix<::n::R2>,::n::R2>(\"A6\")"}, {23, ".m1.A6|class<::n::Mix<::n::R2>::Nest,::n::R2>(\"Nest\")"}, {86, ".m1.A6|context.def(pybind11::init<>(),\"\")"}, {86, ".m1.A6|context.def(pybind11::init<const::n::Mix<::n::R2>&>(),\"\",pybind11::arg(\"\"))"}, {86, ".m1.A6.Nest|context.def(pybind11::init<>(),\"\")"}, {86, ".m1.A6.Nest|context.def(pybind11::init<const::n::Mix<::n::R2>::Nest&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {{9, "|class<::n::Mix<::n::R2>,::n::R2>(\"Mix_n_R2_\")"}, {9, ".Mix_n_R2_|class<::n::Mix<::n::R2>::Nest,::n::R2>(\"Nest\")"}, {60, ".Mix_n_R2_|context.def(pybind11::init<>(),\"\")"}, {60, ".Mix_n_R2_|context.def(pybind11::init<const::n::Mix<::n::R2>&>(),\"\",pybind11::arg(\"\"))"}, {60, ".Mix_n_R2_.Nest|context.def(pybind11::init<>(),\"\")"}, {60, ".Mix_n_R2_.Nest|context.def(pybind11::init<const::n::Mix<::n::R2>::Nest&>(),\"\",pybind11::arg(\"\"))"}, {86, ".m1|context.attr(\"A6\")=::genpybind::getObjectForType<::n::Mix<::n::R2>>()"}}}}},
  {"a7", 0, {nullptr, "expose_here", "encourage"}, {
    {false, {}, {}},
    {false, {7, 8, 55, 56, 57, 58, 59}, {{23, ".m1|class<::n::Crtp<::n::Self>>(\"A7\")"}, {23, "|class<::n::Self,::n::Crtp<::n::Self>>(\"Self\")"}, {86, ".m1.A7|context.def(pybind11::init<>(),\"\")"}, {86, ".m1.A7|context.def(pybind11::init<const::n::Crtp<::n::Self>&>(),\"\",pybind11::arg(\"\"))"}, {86, ".m1.A7|context.def_readwrite(\"p\",&::n::Crtp<n::Self>::p)"}, {86, ".Self|context.def(pybind11::init<>(),\"\")"}, {86, ".Self|context.def(pybind11::init<const::n::Self&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {}, {{86, ".m1|context.attr(\"A7\")=::genpybind::getObjectForType<::n::Crtp<::n::Self>>()"}}}}},
  {"b1", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {19, 21, 80, 81, 84, 85}, {{26, ".m2.P|class<::n::Dia1,::n::R1>(\"B1\")"}, {26, "|class<::n::Dia,::n::Dia2,::n::Dia1>(\"Dia\")"}, {90, ".m2.P.B1|context.def(pybind11::init<>(),\"\")"}, {90, ".m2.P.B1|context.def(pybind11::init<const::n::Dia1&>(),\"\",pybind11::arg(\"\"))"}, {90, ".Dia|context.def(pybind11::init<>(),\"\")"}, {90, ".Dia|context.def(pybind11::init<const::n::Dia&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"b2", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {2, 45, 46}, {{26, ".m2.P|enum<::n::R1::E1>(\"B2\")"}, {90, ".m2.P.B2|context.value(\"e1\",::n::R1::E1::e1)"}, {90, ".m2.P.B2|context.export_values()"}}}}},
  {"b3", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {22, 23, 86, 87}, {{25, ".m2|class<::m1::Sub,::n::R2>(\"B3\")"}, {86, ".m2.B3|context.def(pybind11::init<>(),\"\")"}, {86, ".m2.B3|context.def(pybind11::init<const::m1::Sub&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"b4", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {15, 16, 17, 72, 73, 74, 75, 76, 77}, {{27, ".m2.Q|class<::n::Hid,::n::Leaf>(\"B4\")"}, {27, ".m2.Q.B4|class<::n::Hid::Under>(\"Under\")"}, {27, "|class<::n::Via,::n::Hid>(\"Via\")"}, {92, ".m2.Q.B4|context.def(pybind11::init<>(),\"\")"}, {92, ".m2.Q.B4|context.def(pybind11::init<const::n::Hid&>(),\"\",pybind11::arg(\"\"))"}, {92, ".m2.Q.B4.Under|context.def(pybind11::init<>(),\"\")"}, {92, ".m2.Q.B4.Under|context.def(pybind11::init<const::n::Hid::Under&>(),\"\",pybind11::arg(\"\"))"}, {92, ".Via|context.def(pybind11::init<>(),\"\")"}, {92, ".Via|context.def(pybind11::init<const::n::Via&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"m3", 0, {"module", "visible", nullptr}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"b5", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {21, 84, 85}, {{27, ".m2|submodule<>(\"m3\")"}, {27, ".m2.m3|class<::n::Dia,::n::Dia2,::n::Dia1>(\"B5\")"}, {92, ".m2.m3.B5|context.def(pybind11::init<>(),\"\")"}, {92, ".m2.m3.B5|context.def(pybind11::init<const::n::Dia&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"b6", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {22, 23, 26, 86, 87, 90, 91}, {{25, ".m2|class<::m2::Q,::n::User2>(\"Q\")"}, {25, ".m2|submodule<>(\"m3\")"}, {25, ".m2.m3|class<::m1::Sub,::n::R2>(\"B6\")"}, {86, ".m2.Q|context.def(pybind11::init<>(),\"\")"}, {86, ".m2.Q|context.def(pybind11::init<const::m2::Q&>(),\"\",pybind11::arg(\"\"))"}, {86, ".m2.m3.B6|context.def(pybind11::init<>(),\"\")"}, {86, ".m2.m3.B6|context.def(pybind11::init<const::m1::Sub&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"c1", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {3, 5, 6, 11, 12, 13, 15, 16, 17, 23, 25, 47, 48, 51, 52, 53, 54, 64, 65, 66, 67, 68, 69, 72, 73, 74, 75, 76, 77, 90, 91, 92, 93}, {{28, ".Top|class<::n::R2,::n::R1>(\"C1\")"}, {28, ".R3|class<::n::R3::In2,::n::R2>(\"In2\")"}, {28, "|class<::n::Leaf,::n::R3::In2,::n::R3>(\"Leaf\")"}, {28, "|class<::n::Mix<::n::Leaf>,::n::Leaf>(\"Mix_n_Leaf_\")"}, {28, ".Mix_n_Leaf_|class<::n::Mix<::n::Leaf>::Nest,::n::Leaf>(\"Nest\")"}, {28, "|class<::n::User,::n::Mix<::n::Leaf>>(\"User\")"}, {28, "|class<::n::Hid,::n::Leaf>(\"Hid\")"}, {28, ".Hid|class<::n::Hid::Under>(\"Under\")"}, {28, "|class<::n::Via,::n::Hid>(\"Via\")"}, {28, ".m1|class<::m1::Sub,::n::R2>(\"Sub\")"}, {28, ".m2|class<::m2::P,::m1::Sub>(\"P\")"}, {86, ".m2.Q|context.def(pybind11::init<>(),\"\")"}, {86, ".m2.Q|context.def(pybind11::init<const::m2::Q&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Top|context.def(pybind11::init<>(),\"\")"}, {86, ".Top|context.def(pybind11::init<const::Top&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Top.C1|context.def(pybind11::init<>(),\"\")"}, {86, ".Top.C1|context.def(pybind11::init<const::n::R2&>(),\"\",pybind11::arg(\"\"))"}, {86, ".R3.In2|context.def(pybind11::init<>(),\"\")"}, {86, ".R3.In2|context.def(pybind11::init<const::n::R3::In2&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Leaf|context.def(pybind11::init<>(),\"\")"}, {86, ".Leaf|context.def(pybind11::init<const::n::Leaf&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Mix_n_Leaf_|context.def(pybind11::init<>(),\"\")"}, {86, ".Mix_n_Leaf_|context.def(pybind11::init<const::n::Mix<::n::Leaf>&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Mix_n_Leaf_.Nest|context.def(pybind11::init<>(),\"\")"}, {86, ".Mix_n_Leaf_.Nest|context.def(pybind11::init<const::n::Mix<::n::Leaf>::Nest&>(),\"\",pybind11::arg(\"\"))"}, {86, ".User|context.def(pybind11::init<>(),\"\")"}, {86, ".User|context.def(pybind11::init<const::n::User&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Hid|context.def(pybind11::init<>(),\"\")"}, {86, ".Hid|context.def(pybind11::init<const::n::Hid&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Hid.Under|context.def(pybind11::init<>(),\"\")"}, {86, ".Hid.Under|context.def(pybind11::init<const::n::Hid::Under&>(),\"\",pybind11::arg(\"\"))"}, {86, ".Via|context.def(pybind11::init<>(),\"\")"}, {86, ".Via|context.def(pybind11::init<const::n::Via&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"c2", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {true, {}, {}}}},
  {"qx1", 0, {nullptr, "expose_here", "expose_here, expose_as(Moved)"}, {
    {false, {}, {}},
    {false, {28, 94, 95}, {{30, ".B1|class<::q::A1>(\"X\")"}, {98, ".B1.X|context.def(pybind11::init<>(),\"\")"}, {98, ".B1.X|context.def(pybind11::init<const::q::A1&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {28, 94, 95}, {{30, ".B1|class<::q::A1>(\"Moved\")"}, {98, ".B1.Moved|context.def(pybind11::init<>(),\"\")"}, {98, ".B1.Moved|context.def(pybind11::init<const::q::A1&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"qx2", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {30, 98, 99}, {{32, ".B2|class<::q::A2>(\"X\")"}, {102, ".B2.X|context.def(pybind11::init<>(),\"\")"}, {102, ".B2.X|context.def(pybind11::init<const::q::A2&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"qx3", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {32, 102, 103}, {{34, ".B3|class<::q::A3>(\"X\")"}, {106, ".B3.X|context.def(pybind11::init<>(),\"\")"}, {106, ".B3.X|context.def(pybind11::init<const::q::A3&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"qx4", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {34, 106, 107}, {{37, ".B4|class<::q::A4>(\"X\")"}, {112, ".B4.X|context.def(pybind11::init<>(),\"\")"}, {112, ".B4.X|context.def(pybind11::init<const::q::A4&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"qx5", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {false, {37, 112, 113}, {{39, ".B5|class<::q::A5>(\"X\")"}, {116, ".B5.X|context.def(pybind11::init<>(),\"\")"}, {116, ".B5.X|context.def(pybind11::init<const::q::A5&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"qx6", 0, {nullptr, "expose_here"}, {
    {false, {}, {}},
    {true, {}, {}}}},
}};
RegE R0({"C08.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); if (!r.exit_code) setUpOrder(model(r)); }});
} // namespace
