// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct X {}; struct Y { Y(X) GENPYBIND(__sel_y); };
struct GENPYBIND(__sel_agg) Agg { int a; };
struct DefDel { DefDel() = delete; DefDel(DefDel const &) = default; DefDel(int) = delete; DefDel(double) GENPYBIND(__sel_dd); };
struct CopyDel { CopyDel() = default; CopyDel(CopyDel const &) = delete; };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly &&); MoveOnly &operator=(MoveOnly &&); };
struct MoveToo { MoveToo(MoveToo &&); MoveToo(MoveToo const &); MoveToo(MoveToo const &&); };
struct NonConstCopy { NonConstCopy(); NonConstCopy(NonConstCopy &); };
struct CopyDefault { CopyDefault(CopyDefault const &, int = 0); CopyDefault(CopyDefault &&, int = 0); };
struct HasMoveOnly { MoveOnly m; }; struct HasRef { int &r; HasRef(int &); }; struct HasConst { const int c; };
struct Abs { Abs(); Abs(int) GENPYBIND(__sel_abs); virtual void f() = 0; };
struct StillAbs : Abs { StillAbs(int); using Abs::Abs; }; struct Conc : Abs { Conc(int); void f() override; }; struct Impl : Abs { void f() override; };
struct PureDtor { virtual ~PureDtor() = 0; PureDtor(int); };
class Priv { Priv(); public: Priv(int); private: Priv(double) GENPYBIND(__sel_pv); protected: Priv(char); };
class AllPriv { AllPriv(); AllPriv(AllPriv const &); };
struct ProtDtor { ProtDtor(int); protected: ~ProtDtor(); }; struct DelDtor { DelDtor(int); ~DelDtor() = delete; }; 
struct Ex { explicit Ex(int) GENPYBIND(__sel_ex); explicit Ex(X const &) GENPYBIND(__sel_ex2); Ex(X *, int = 3) GENPYBIND(__sel_ex3); Ex(int, int) GENPYBIND(__sel_ex4); Ex() ; Ex(char, ...) ; };
struct Inh : Ex { using Ex::Ex; Inh(long); }; struct Inh2 : private Ex { using Ex::Ex; };
struct Tm { template <typename T> Tm(T); Tm(int); };
template <typename T> struct Tp { Tp(T const &) GENPYBIND(__sel_tp); Tp(Tp const &); Tp(Tp<char> const &); Tp(T *, T = {}); };
extern template struct GENPYBIND(visible) Tp<int>;
struct Nest { Nest(int); struct In { In(Nest); In(In const &, Nest const * = nullptr); }; };
struct Vb : virtual X { }; struct Amb { Amb(X const &) GENPYBIND(__sel_am); Amb(Y const &) GENPYBIND(__sel_am2); Amb(X &&); };
struct Il { Il(int const (&)[3]); Il(void (*)(int)); Il(int X::*); Il(bool) noexcept; constexpr Il(short) {} };
struct Refq { Refq(Refq const volatile &); Refq(Refq &, int); };
struct GENPYBIND(__sel_ib) Ib : Y { Ib(int); };
union Uu { int a; float b; Uu(); Uu(int); };
}
struct GENPYBIND(hidden) Hid { Hid(int) GENPYBIND(__sel_hid); };
struct GENPYBIND(__sel_root) Root { Root(int); };
)zoo";
const Zoo Z0{{
  "|class<::n::X>(\"X\")",
  "|class<::n::Y>(\"Y\")",
  "|class<::n::Agg>(\"Agg\")",
  "|class<::n::DefDel>(\"DefDel\")",
  "|class<::n::CopyDel>(\"CopyDel\")",
  "|class<::n::MoveOnly>(\"MoveOnly\")",
  "|class<::n::MoveToo>(\"MoveToo\")",
  "|class<::n::NonConstCopy>(\"NonConstCopy\")",
  "|class<::n::CopyDefault>(\"CopyDefault\")",
  "|class<::n::HasMoveOnly>(\"HasMoveOnly\")",
  "|class<::n::HasRef>(\"HasRef\")",
  "|class<::n::HasConst>(\"HasConst\")",
  "|class<::n::Abs>(\"Abs\")",
  "|class<::n::StillAbs,::n::Abs>(\"StillAbs\")",
  "|class<::n::Conc,::n::Abs>(\"Conc\")",
  "|class<::n::Impl,::n::Abs>(\"Impl\")",
  "|class<::n::PureDtor>(\"PureDtor\")",
  "|class<::n::Priv>(\"Priv\")",
  "|class<::n::AllPriv>(\"AllPriv\")",
  "|class<::n::ProtDtor>(\"ProtDtor\")",
  "|class<::n::DelDtor>(\"DelDtor\")",
  "|class<::n::Ex>(\"Ex\")",
  "|class<::n::Inh,::n::Ex>(\"Inh\")",
  "|class<::n::Inh2>(\"Inh2\")",
  "|class<::n::Tm>(\"Tm\")",
  "|class<::n::Tp<int>>(\"Tp_int_\")",
  "|class<::n::Nest>(\"Nest\")",
  ".Nest|class<::n::Nest::In>(\"In\")",
  "|class<::n::Vb,::n::X>(\"Vb\")",
  "|class<::n::Amb>(\"Amb\")",
  "|class<::n::Il>(\"Il\")",
  "|class<::n::Refq>(\"Refq\")",
  "|class<::n::Ib,::n::Y>(\"Ib\")",
  "|class<::n::Uu>(\"Uu\")",
  "|class<::Root>(\"Root\")",
  ".X|context.def(pybind11::init<>(),\"\")",
  ".X|context.def(pybind11::init<const::n::X&>(),\"\",pybind11::arg(\"\"))",
  ".Y|context.def(pybind11::init<const::n::Y&>(),\"\",pybind11::arg(\"\"))",
  ".Y|context.def(pybind11::init<::n::X>(),\"\",pybind11::arg(\"\"))",
  ".Agg|context.def(pybind11::init<>(),\"\")",
  ".Agg|context.def(pybind11::init<const::n::Agg&>(),\"\",pybind11::arg(\"\"))",
  ".Agg|context.def_readwrite(\"a\",&::n::Agg::a)",
  ".DefDel|context.def(pybind11::init<const::n::DefDel&>(),\"\",pybind11::arg(\"\"))",
  ".DefDel|context.def(pybind11::init<double>(),\"\",pybind11::arg(\"\"))",
  ".CopyDel|context.def(pybind11::init<>(),\"\")",
  ".MoveOnly|context.def(pybind11::init<>(),\"\")",
  ".MoveToo|context.def(pybind11::init<const::n::MoveToo&>(),\"\",pybind11::arg(\"\"))",
  ".NonConstCopy|context.def(pybind11::init<>(),\"\")",
  ".NonConstCopy|context.def(pybind11::init<::n::NonConstCopy&>(),\"\",pybind11::arg(\"\"))",
  ".CopyDefault|context.def(pybind11::init<const::n::CopyDefault&,int>(),\"\",pybind11::arg(\"\"),pybind11::arg(\"\")=0)",
  ".HasMoveOnly|context.def(pybind11::init<>(),\"\")",
  ".HasMoveOnly|context.def_readwrite(\"m\",&::n::HasMoveOnly::m)",
  ".HasRef|context.def(pybind11::init<const::n::HasRef&>(),\"\",pybind11::arg(\"\"))",
  ".HasRef|context.def_readwrite(\"r\",&::n::HasRef::r)",
  ".HasRef|context.def(pybind11::init<int&>(),\"\",pybind11::arg(\"\"))",
  ".HasConst|context.def(pybind11::init<const::n::HasConst&>(),\"\",pybind11::arg(\"\"))",
  ".HasConst|context.def_readonly(\"c\",&::n::HasConst::c)",
  ".Abs|context.def(\"f\",pybind11::overload_cast<>(&::n::Abs::f),\"\")",
  ".Conc|context.def(pybind11::init<const::n::Conc&>(),\"\",pybind11::arg(\"\"))",
  ".Conc|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".Conc|context.def(\"f\",pybind11::overload_cast<>(&::n::Conc::f),\"\")",
  ".Impl|context.def(pybind11::init<>(),\"\")",
  ".Impl|context.def(pybind11::init<const::n::Impl&>(),\"\",pybind11::arg(\"\"))",
  ".Impl|context.def(\"f\",pybind11::overload_cast<>(&::n::Impl::f),\"\")",
  ".Priv|context.def(pybind11::init<const::n::Priv&>(),\"\",pybind11::arg(\"\"))",
  ".Priv|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".ProtDtor|context.def(pybind11::init<const::n::ProtDtor&>(),\"\",pybind11::arg(\"\"))",
  ".ProtDtor|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".DelDtor|context.def(pybind11::init<const::n::DelDtor&>(),\"\",pybind11::arg(\"\"))",
  ".DelDtor|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".Ex|context.def(pybind11::init<const::n::Ex&>(),\"\",pybind11::arg(\"\"))",
  ".Ex|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".Ex|context.def(pybind11::init<const::n::X&>(),\"\",pybind11::arg(\"\"))",
  ".Ex|context.def(pybind11::init<::n::X*,int>(),\"\",pybind11::arg(\"\"),pybind11::arg(\"\")=3)",
  ".Ex|context.def(pybind11::init<int,int>(),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))",
  ".Ex|context.def(pybind11::init<>(),\"\")",
  ".Ex|context.def(pybind11::init<char>(),\"\",pybind11::arg(\"\"))",
  ".Inh|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".Inh|context.def(pybind11::init<const::n::X&>(),\"\",pybind11::arg(\"\"))",
  ".Inh|context.def(pybind11::init<::n::X*,int>(),\"\",pybind11::arg(\"\"),pybind11::arg(\"\")=3)",
  ".Inh|context.def(pybind11::init<int,int>(),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))",
  ".Inh|context.def(pybind11::init<char>(),\"\",pybind11::arg(\"\"))",
  ".Inh|context.def(pybind11::init<>(),\"\")",
  ".Inh|context.def(pybind11::init<const::n::Inh&>(),\"\",pybind11::arg(\"\"))",
  ".Inh|context.def(pybind11::init<long>(),\"\",pybind11::arg(\"\"))",
  ".Inh2|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".Inh2|context.def(pybind11::init<const::n::X&>(),\"\",pybind11::arg(\"\"))",
  ".Inh2|context.def(pybind11::init<::n::X*,int>(),\"\",pybind11::arg(\"\"),pybind11::arg(\"\")=3)",
  ".Inh2|context.def(pybind11::init<int,int>(),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))",
  ".Inh2|context.def(pybind11::init<char>(),\"\",pybind11::arg(\"\"))",
  ".Inh2|context.def(pybind11::init<>(),\"\")",
  ".Inh2|context.def(pybind11::init<const::n::Inh2&>(),\"\",pybind11::arg(\"\"))",
  ".Tm|context.def(pybind11::init<const::n::Tm&>(),\"\",pybind11::arg(\"\"))",
  ".Tm|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".Tp_int_|context.def(pybind11::init<constint&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_int_|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_int_|context.def(pybind11::init<const::n::Tp<char>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_int_|context.def(pybind11::init<int*,int>(),\"\",pybind11::arg(\"\"),pybind11::arg(\"\")=int{})",
  ".Nest|context.def(pybind11::init<const::n::Nest&>(),\"\",pybind11::arg(\"\"))",
  ".Nest|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".Nest.In|context.def(pybind11::init<::n::Nest>(),\"\",pybind11::arg(\"\"))",
  ".Nest.In|context.def(pybind11::init<const::n::Nest::In&,const::n::Nest*>(),\"\",pybind11::arg(\"\"),pybind11::arg(\"\")=nullptr)",
  ".Vb|context.def(pybind11::init<>(),\"\")",
  ".Vb|context.def(pybind11::init<const::n::Vb&>(),\"\",pybind11::arg(\"\"))",
  ".Amb|context.def(pybind11::init<const::n::Amb&>(),\"\",pybind11::arg(\"\"))",
  ".Amb|context.def(pybind11::init<const::n::X&>(),\"\",pybind11::arg(\"\"))",
  ".Amb|context.def(pybind11::init<const::n::Y&>(),\"\",pybind11::arg(\"\"))",
  ".Amb|context.def(pybind11::init<::n::X&&>(),\"\",pybind11::arg(\"\"))",
  ".Il|context.def(pybind11::init<const::n::Il&>(),\"\",pybind11::arg(\"\"))",
  ".Il|context.def(pybind11::init<constint(&)[3]>(),\"\",pybind11::arg(\"\"))",
  ".Il|context.def(pybind11::init<void(*)(int)>(),\"\",pybind11::arg(\"\"))",
  ".Il|context.def(pybind11::init<int::n::X::*>(),\"\",pybind11::arg(\"\"))",
  ".Il|context.def(pybind11::init<bool>(),\"\",pybind11::arg(\"\"))",
  ".Il|context.def(pybind11::init<short>(),\"\",pybind11::arg(\"\"))",
  ".Refq|context.def(pybind11::init<constvolatile::n::Refq&>(),\"\",pybind11::arg(\"\"))",
  ".Refq|context.def(pybind11::init<::n::Refq&,int>(),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))",
  ".Ib|context.def(pybind11::init<const::n::Ib&>(),\"\",pybind11::arg(\"\"))",
  ".Ib|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".Uu|context.def(pybind11::init<const::n::Uu&>(),\"\",pybind11::arg(\"\"))",
  ".Uu|context.def_readwrite(\"a\",&::n::Uu::a)",
  ".Uu|context.def_readwrite(\"b\",&::n::Uu::b)",
  ".Uu|context.def(pybind11::init<>(),\"\")",
  ".Uu|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))",
  ".Root|context.def(pybind11::init<const::Root&>(),\"\",pybind11::arg(\"\"))",
  ".Root|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"\"))"
}, {
  {"y", 0, {nullptr, "implicit_conversion", "hidden", "implicit_conversion, hidden", "implicit_conversion(false)", "implicit_conversion(true)", "visible"}, {
    {false, {}, {}},
    {false, {}, {{38, ".Y|pybind11::implicitly_convertible<::n::X,::n::Y>()"}}},
    {false, {38}, {}},
    {false, {38}, {}},
    {false, {}, {}},
    {false, {}, {{38, ".Y|pybind11::implicitly_convertible<::n::X,::n::Y>()"}}},
    {false, {}, {}}}},
  {"agg", 0, {nullptr, "hidden", "expose_as(Agg2)", "visible"}, {
    {false, {}, {}},
    {false, {2, 39, 40, 41}, {}},
    {false, {2, 39, 40, 41}, {{2, "|class<::n::Agg>(\"Agg2\")"}, {39, ".Agg2|context.def(pybind11::init<>(),\"\")"}, {39, ".Agg2|context.def(pybind11::init<const::n::Agg&>(),\"\",pybind11::arg(\"\"))"}, {39, ".Agg2|context.def_readwrite(\"a\",&::n::Agg::a)"}}},
    {false, {}, {}}}},
  {"dd", 0, {nullptr, "implicit_conversion", "hidden"}, {
    {false, {}, {}},
    {false, {}, {{43, ".DefDel|pybind11::implicitly_convertible<double,::n::DefDel>()"}}},
    {false, {43}, {}}}},
  {"abs", 0, {nullptr, "implicit_conversion", "visible"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"pv", 0, {nullptr, "visible", "implicit_conversion"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"ex", 0, {nullptr, "implicit_conversion", "hidden"}, {
    {false, {}, {}},
    {false, {}, {{71, ".Ex|pybind11::implicitly_convertible<int,::n::Ex>()"}, {77, ".Inh|pybind11::implicitly_convertible<int,::n::Inh>()"}, {85, ".Inh2|pybind11::implicitly_convertible<int,::n::Inh2>()"}}},
    {false, {71, 77, 85}, {}}}},
  {"ex2", 0, {nullptr, "implicit_conversion"}, {
    {false, {}, {}},
    {false, {}, {{72, ".Ex|pybind11::implicitly_convertible<const::n::X&,::n::Ex>()"}, {78, ".Inh|pybind11::implicitly_convertible<const::n::X&,::n::Inh>()"}, {86, ".Inh2|pybind11::implicitly_convertible<const::n::X&,::n::Inh2>()"}}}}},
  {"ex3", 0, {nullptr, "implicit_conversion"}, {
    {false, {}, {}},
    {true, {}, {}}}},
  {"ex4", 0, {nullptr, "implicit_conversion(false)", "implicit_conversion"}, {
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}}}},
  {"tp", 0, {nullptr, "implicit_conversion"}, {
    {false, {}, {}},
    {false, {}, {{94, ".Tp_int_|pybind11::implicitly_convertible<constint&,::n::Tp<int>>()"}}}}},
  {"am", 0, {nullptr, "implicit_conversion"}, {
    {false, {}, {}},
    {false, {}, {{105, ".Amb|pybind11::implicitly_convertible<const::n::X&,::n::Amb>()"}}}}},
  {"am2", 0, {nullptr, "implicit_conversion"}, {
    {false, {}, {}},
    {false, {}, {{106, ".Amb|pybind11::implicitly_convertible<const::n::Y&,::n::Amb>()"}}}}},
  {"ib", 0, {nullptr, "inline_base", "hide_base"}, {
    {false, {}, {}},
    {false, {32}, {{32, "|class<::n::Ib>(\"Ib\")"}}},
    {false, {32}, {{32, "|class<::n::Ib>(\"Ib\")"}}}}},
  {"hid", 0, {nullptr, "visible", "implicit_conversion"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"root", 0, {"visible", nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {34, 123, 124}, {}},
    {false, {34, 123, 124}, {}}}},
}};
RegE R0({"C20.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
