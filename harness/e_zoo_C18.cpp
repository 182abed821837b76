// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
enum GENPYBIND(__sel_u) U { ua, ub = 5, uc = ua, ud GENPYBIND(__sel_ud) , ue };
enum class GENPYBIND(__sel_s) S : unsigned char { sa GENPYBIND(__sel_sa), sb = 200, sc };
enum struct T : long long { ta = -1, tb = 9223372036854775807LL };
enum Empty {};
enum Fwd : int; enum Fwd : int { fa, fb };
enum class GENPYBIND(__sel_onfwd) FwdA : int; enum class FwdA : int { x };
enum class FwdB : int; enum class GENPYBIND(__sel_ondef) FwdB : int { x };
enum class Never : int;
struct GENPYBIND(__sel_c) C {
  enum In { ia, ib };
  enum class GENPYBIND(__sel_is) InS { ia, ib };
protected: enum Prot { pa }; 
  enum GENPYBIND(__sel_pp) Prot2 { pb };
private: enum Priv { pc };
};
namespace m GENPYBIND(__sel_m) { enum X { xa, xb }; enum class Y { ya }; }
template <typename V> struct Tp { enum E { te = sizeof(V), tf }; enum class F : V { tg }; };
extern template struct GENPYBIND(__sel_tp) Tp<char>;
using AliasU GENPYBIND(__sel_al) = T;
extern int separator;
}
enum Hidden { h1 GENPYBIND(__sel_h1), h2 };
enum GENPYBIND(__sel_h) Root { r1 GENPYBIND(__sel_r1), r2 };
namespace n GENPYBIND(visible) { using ::Root; }
)zoo";
const Zoo Z0{{
  "|enum<::n::U>(\"U\")",
  "|enum<::n::S>(\"S\")",
  "|enum<::n::T>(\"T\")",
  "|enum<::n::Empty>(\"Empty\")",
  "|enum<::n::Fwd>(\"Fwd\")",
  "|enum<::n::FwdA>(\"FwdA\")",
  "|enum<::n::FwdB>(\"FwdB\")",
  "|class<::n::C>(\"C\")",
  ".C|enum<::n::C::In>(\"In\")",
  ".C|enum<::n::C::InS>(\"InS\")",
  "|enum<::n::m::X>(\"X\")",
  "|enum<::n::m::Y>(\"Y\")",
  "|class<::n::Tp<char>>(\"Tp_char_\")",
  ".Tp_char_|enum<::n::Tp<char>::E>(\"E\")",
  ".Tp_char_|enum<::n::Tp<char>::F>(\"F\")",
  "|enum<::Root>(\"Root\")",
  "|context.attr(\"separator\")=::n::separator",
  ".U|context.value(\"ua\",::n::U::ua)",
  ".U|context.value(\"ub\",::n::U::ub)",
  ".U|context.value(\"uc\",::n::U::uc)",
  ".U|context.value(\"ud\",::n::U::ud)",
  ".U|context.value(\"ue\",::n::U::ue)",
  ".U|context.export_values()",
  ".S|context.value(\"sa\",::n::S::sa)",
  ".S|context.value(\"sb\",::n::S::sb)",
  ".S|context.value(\"sc\",::n::S::sc)",
  ".T|context.value(\"ta\",::n::T::ta)",
  ".T|context.value(\"tb\",::n::T::tb)",
  ".Empty|context.export_values()",
  ".Fwd|context.value(\"fa\",::n::Fwd::fa)",
  ".Fwd|context.value(\"fb\",::n::Fwd::fb)",
  ".Fwd|context.export_values()",
  ".FwdA|context.value(\"x\",::n::FwdA::x)",
  ".FwdB|context.value(\"x\",::n::FwdB::x)",
  ".C|context.def(pybind11::init<>(),\"\")",
  ".C|context.def(pybind11::init<const::n::C&>(),\"\",pybind11::arg(\"\"))",
  ".C.In|context.value(\"ia\",::n::C::In::ia)",
  ".C.In|context.value(\"ib\",::n::C::In::ib)",
  ".C.In|context.export_values()",
  ".C.InS|context.value(\"ia\",::n::C::InS::ia)",
  ".C.InS|context.value(\"ib\",::n::C::InS::ib)",
  ".X|context.value(\"xa\",::n::m::X::xa)",
  ".X|context.value(\"xb\",::n::m::X::xb)",
  ".X|context.export_values()",
  ".Y|context.value(\"ya\",::n::m::Y::ya)",
  ".Tp_char_|context.def(pybind11::init<>(),\"\")",
  ".Tp_char_|context.def(pybind11::init<const::n::Tp<char>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_char_.E|context.value(\"te\",::n::Tp<char>::E::te)",
  ".Tp_char_.E|context.value(\"tf\",::n::Tp<char>::E::tf)",
  ".Tp_char_.E|context.export_values()",
  ".Tp_char_.F|context.value(\"tg\",::n::Tp<char>::F::tg)",
  ".Root|context.value(\"r1\",::Root::r1)",
  ".Root|context.value(\"r2\",::Root::r2)",
  ".Root|context.export_values()"
}, {
  {"u", 0, {nullptr, "hidden", "export_values", "export_values(false)", "export_values(true)", "arithmetic", "arithmetic(false)", "arithmetic, export_values(false)", "expose_as(UU)", "export_values(true), export_values(false)", "export_values(false), export_values(true)", "arithmetic(false), arithmetic", "arithmetic, arithmetic(false)", "visible(false)", "visible(default)"}, {
    {false, {}, {}},
    {false, {0, 17, 18, 19, 20, 21, 22}, {}},
    {false, {}, {}},
    {false, {22}, {}},
    {false, {}, {}},
    {false, {0}, {{0, "|enum<::n::U>(\"U\",pybind11::arithmetic())"}}},
    {false, {}, {}},
    {false, {0, 22}, {{0, "|enum<::n::U>(\"U\",pybind11::arithmetic())"}}},
    {false, {0, 17, 18, 19, 20, 21, 22}, {{0, "|enum<::n::U>(\"UU\")"}, {17, ".UU|context.value(\"ua\",::n::U::ua)"}, {17, ".UU|context.value(\"ub\",::n::U::ub)"}, {17, ".UU|context.value(\"uc\",::n::U::uc)"}, {17, ".UU|context.value(\"ud\",::n::U::ud)"}, {17, ".UU|context.value(\"ue\",::n::U::ue)"}, {17, ".UU|context.export_values()"}}},
    {false, {22}, {}},
    {false, {}, {}},
    {false, {0}, {{0, "|enum<::n::U>(\"U\",pybind11::arithmetic())"}}},
    {false, {}, {}},
    {false, {0, 17, 18, 19, 20, 21, 22}, {}},
    {false, {}, {}}}},
  {"ud", 0, {nullptr, "hidden", "expose_as(other)", "visible", "visible(false)", "visible(default)"}, {
    {false, {}, {}},
    {false, {20}, {}},
    {false, {20}, {{20, ".U|context.value(\"other\",::n::U::ud)"}}},
    {false, {}, {}},
    {false, {20}, {}},
    {false, {}, {}}}},
  {"s", 0, {nullptr, "hidden", "export_values", "export_values(false)", "arithmetic", "arithmetic(true), export_values(true)", "expose_as(SS)", "visible"}, {
    {false, {}, {}},
    {false, {1, 23, 24, 25}, {}},
    {false, {}, {{26, ".S|context.export_values()"}}},
    {false, {}, {}},
    {false, {1}, {{1, "|enum<::n::S>(\"S\",pybind11::arithmetic())"}}},
    {false, {1}, {{1, "|enum<::n::S>(\"S\",pybind11::arithmetic())"}, {26, ".S|context.export_values()"}}},
    {false, {1, 23, 24, 25}, {{1, "|enum<::n::S>(\"SS\")"}, {23, ".SS|context.value(\"sa\",::n::S::sa)"}, {23, ".SS|context.value(\"sb\",::n::S::sb)"}, {23, ".SS|context.value(\"sc\",::n::S::sc)"}}},
    {false, {}, {}}}},
  {"sa", 0, {nullptr, "hidden", "expose_as(first)"}, {
    {false, {}, {}},
    {false, {23}, {}},
    {false, {23}, {{23, ".S|context.value(\"first\",::n::S::sa)"}}}}},
  {"onfwd", 0, {nullptr, "arithmetic", "export_values", "expose_as(Ren)", "hidden"}, {
    {false, {}, {}},
    {false, {5}, {{5, "|enum<::n::FwdA>(\"FwdA\",pybind11::arithmetic())"}}},
    {false, {}, {{33, ".FwdA|context.export_values()"}}},
    {false, {5, 32}, {{5, "|enum<::n::FwdA>(\"Ren\")"}, {32, ".Ren|context.value(\"x\",::n::FwdA::x)"}}},
    {false, {5, 32}, {}}}},
  {"ondef", 0, {nullptr, "arithmetic", "export_values", "expose_as(Ren)", "hidden"}, {
    {false, {}, {}},
    {false, {6}, {{6, "|enum<::n::FwdB>(\"FwdB\",pybind11::arithmetic())"}}},
    {false, {}, {{34, ".FwdB|context.export_values()"}}},
    {false, {6, 33}, {{6, "|enum<::n::FwdB>(\"Ren\")"}, {33, ".Ren|context.value(\"x\",::n::FwdB::x)"}}},
    {false, {6, 33}, {}}}},
  {"c", 0, {nullptr, "hidden", "expose_as(CC)"}, {
    {false, {}, {}},
    {false, {7, 8, 9, 34, 35, 36, 37, 38, 39, 40}, {}},
    {false, {7, 8, 9, 34, 35, 36, 37, 38, 39, 40}, {{7, "|class<::n::C>(\"CC\")"}, {7, ".CC|enum<::n::C::In>(\"In\")"}, {7, ".CC|enum<::n::C::InS>(\"InS\")"}, {34, ".CC|context.def(pybind11::init<>(),\"\")"}, {34, ".CC|context.def(pybind11::init<const::n::C&>(),\"\",pybind11::arg(\"\"))"}, {34, ".CC.In|context.value(\"ia\",::n::C::In::ia)"}, {34, ".CC.In|context.value(\"ib\",::n::C::In::ib)"}, {34, ".CC.In|context.export_values()"}, {34, ".CC.InS|context.value(\"ia\",::n::C::InS::ia)"}, {34, ".CC.InS|context.value(\"ib\",::n::C::InS::ib)"}}}}},
  {"is", 0, {nullptr, "export_values", "hidden"}, {
    {false, {}, {}},
    {false, {}, {{41, ".C.InS|context.export_values()"}}},
    {false, {9, 39, 40}, {}}}},
  {"pp", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {}, {}}}},
  {"m", 0, {nullptr, "module", "hidden", "visible(default)"}, {
    {false, {}, {}},
    {false, {10, 11, 41, 42, 43, 44}, {{10, "|submodule<>(\"m\")"}, {10, ".m|enum<::n::m::X>(\"X\")"}, {10, ".m|enum<::n::m::Y>(\"Y\")"}, {41, ".m.X|context.value(\"xa\",::n::m::X::xa)"}, {41, ".m.X|context.value(\"xb\",::n::m::X::xb)"}, {41, ".m.X|context.export_values()"}, {41, ".m.Y|context.value(\"ya\",::n::m::Y::ya)"}}},
    {false, {10, 11, 41, 42, 43, 44}, {}},
    {false, {}, {}}}},
  {"tp", 0, {"visible", "hidden", "expose_as(TpC)"}, {
    {false, {}, {}},
    {false, {12, 13, 14, 45, 46, 47, 48, 49, 50}, {}},
    {false, {12, 13, 14, 45, 46, 47, 48, 49, 50}, {{12, "|class<::n::Tp<char>>(\"TpC\")"}, {12, ".TpC|enum<::n::Tp<char>::E>(\"E\")"}, {12, ".TpC|enum<::n::Tp<char>::F>(\"F\")"}, {45, ".TpC|context.def(pybind11::init<>(),\"\")"}, {45, ".TpC|context.def(pybind11::init<const::n::Tp<char>&>(),\"\",pybind11::arg(\"\"))"}, {45, ".TpC.E|context.value(\"te\",::n::Tp<char>::E::te)"}, {45, ".TpC.E|context.value(\"tf\",::n::Tp<char>::E::tf)"}, {45, ".TpC.E|context.export_values()"}, {45, ".TpC.F|context.value(\"tg\",::n::Tp<char>::F::tg)"}}}}},
  {"al", 0, {nullptr, "visible", "expose_here", "expose_as(AA)"}, {
    {false, {}, {}},
    {false, {}, {{16, "|context.attr(\"AliasU\")=::genpybind::getObjectForType<::n::T>()"}}},
    {false, {2, 26, 27}, {{2, "|enum<::n::T>(\"AliasU\")"}, {26, ".AliasU|context.value(\"ta\",::n::T::ta)"}, {26, ".AliasU|context.value(\"tb\",::n::T::tb)"}}},
    {false, {}, {{16, "|context.attr(\"AA\")=::genpybind::getObjectForType<::n::T>()"}}}}},
  {"h1", 0, {nullptr, "visible", "expose_as(hh)"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"h", 0, {"visible", nullptr, "arithmetic", "export_values(false)"}, {
    {false, {}, {}},
    {false, {15, 51, 52, 53}, {}},
    {false, {15}, {{15, "|enum<::Root>(\"Root\",pybind11::arithmetic())"}}},
    {false, {53}, {}}}},
  {"r1", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {51}, {}}}},
}};
RegE R0({"C18.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
